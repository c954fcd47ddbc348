#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the table below."""
import json, os
ROOT = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
TV = "TLA+ specification checked with TLC; traces of the real code validated against it"
N = {
"L01": "Every recorded report of generated rule sets and texts is compared by TLC with the step the specification makes (longest match, earliest rule); the specification itself is checked exhaustively for small texts. Trusts the concrete-syntax printer and the generators' choice of cases.",
"L02": "As L01 on a mixture of all rule kinds, with the library under the address and undefined-behaviour sanitizers and texts in exactly sized blocks; termination and coverage of the text are model checked on the specification.",
"L03": "Anchored rule sets and texts full of CR/LF, narrow and wide. Outside: a rule part that is exactly a newline competing with $ (the builder settles it by rule order; two known findings).",
"L04": "Generated multi-state lexers; every report's start state is compared.",
"L05": "Generated push/pop lexers, deep nesting and underflow; the whole stack is compared after every report; stack discipline is model checked on the specification.",
"L06": "Generated skip/continuation lexers, nested continuations through the stack.",
"L07": "The forms the statement names, alone and next to rules that cannot begin at the same place. A non-greedy repeat with an upper bound before a terminator is a known finding.",
"L08": "Random syntax trees printed in many concrete forms, under all options, with macros; meaning by the denotational specification.",
"L10": "wchar_t, char16_t, char32_t and narrow-rules/32-bit lexers against the width-independent specification.",
"L21": "Reversed rules objects against the specification's reversal of the syntax trees.",
}
N["L11"] = "The minimised and the original recorded machine are walked together by TLC (all texts, every length); tokens of the minimised machine are validated against the lexer specification; minimising twice compared table by table."
N["L12"] = "Recorded machines before saving and after loading (into fresh and used targets, one or two machines in a stream, all id and character widths) compared state by state in TLC; tokens of the loaded machine validated against the lexer specification. char32_t and char16_t machines are saved to streams of char."
N["L14"] = "Character machines and table machines walked together by TLC; dumps and graphs are read back and compared state by state with the machine they describe. Table machines over wide characters are converted and dumped byte by byte, as their tables are; the byte machine is what is compared there."
N["L13"] = "Lexers of every kind printed as C++ in both table styles, compiled (under the address and undefined-behaviour sanitizers) and run over random-access and list iterators; every report validated by TLC against the lexer specification."
N["L09"] = "Set expressions of every notation (each category, block, script, POSIX class, escape, byte; random combinations, difference, union, options) put into lexers of every character type; TLC evaluates the specified set and the recorded machine at one character of every interval neither tells apart, so over the whole alphabet. Names resolve in an own reading of the Unicode files of the repository. C locale only."
N["L15"] = "Expressions as plain text (random, mutated, and every text over small alphabets up to 4-6 characters) read by a TLA+ scanner and parser, which decides accepting, refusing and what is matched; histories of valid and failing calls on one rules object followed by the rules-object specification, which also decides by walking derivatives exactly which rules can never match. Left open: non-greedy rules at build time, and what the L03 findings cover. Library under sanitizers in part of the runs."
N["L16"] = "Histories of calls through all overloads, every sequence of up to three calls of a menu, and long histories; after each call every accessor is compared by TLC with the specification's state, each build with a fresh object given only the calls in effect, and built lexers with the lexer specification."
N["L17"] = "Every overload over generated lexers and texts, with strings, maps and functions as replacement and back-inserting, pointer and list output positions; TLC builds the expected output token by token. Machines with push/pop rules are outside (the library asserts)."
N["L18"] = "Schedules TLC produces from the iterator specification (every one of three operations on two slots, long random ones on four) replayed on the real iterators and results objects over generated lexers; all slots and all comparisons recorded after each operation and validated by TLC. Results objects are not compared with each other; sequential interleavings only (no threads)."
N["L19"] = "Schedules TLC produces from the stream-iterator specification (every one of three operations, long random ones; several streams, buffer sizes and increments from 1) replayed on the real iterators under the address sanitizer, all slots, comparisons and the number of live blocks recorded; the buffer algorithm itself is model checked against the positions. Lexing through streams and histories of memory files (contents, mapped pages, descriptors) likewise. Buffer sizes of zero are outside."
N["L20"] = "Every scalar value through every conversion; schedules TLC produces from the specification replayed on every kind of iterator (pointers, lists, nested conversions, byte flipping), all slots, offsets and comparisons recorded; well-formed and ill-formed unit sequences decoded to the end or the error; lexing over converted text compared with the lexer specification. What comes after a sequence of the right shape that is not proper (overlong, surrogate, beyond the last code point) is left open."
N["L22"] = "Lexers of every feature set run with results objects of every set of features that includes the machine's, over pointers and lists; every report validated by TLC against the lexer specification (with the step without 'advance'), the machine's features against the specification's. All 128 results types are instantiated for each iterator kind."
N["L23"] = "Every pair of sets over 5 (thorough 6) points of the alphabet with every operation, long random histories on char, unsigned char and wide character sets including both ends of the alphabet; TLC validates the list of ranges after every operation. That the list of maximal ranges is the one normal form of a set is model checked."
N["L24"] = "Histories of imbue, flags, clear, macro and push under 25 locales made up by facets (Latin-1, Turkish, ISO 646, KOI8-R, no letters at all, random ones); every call's outcome and the rule reported for each of the 256 characters validated by TLC. Locales whose case tables are not those of a std::ctype<char> are not tried; wide rules ignore the locale and belong to L09."
TECH = {p: "TLA+ machine specification: TLC walks the product of the recorded machines (bisimulation); lexer specification for their tokens" for p in ("L11", "L12", "L14")}
TECH["L09"] = "TLA+ specification of character sets, evaluated by TLC over the whole alphabet against the recorded machine"
TECH["L15"] = "TLA+ specifications of the concrete syntax and of the rules object, checked with TLC; recorded calls of the real code validated against them"
TECH["L16"] = "TLA+ specification of the rules object as a state machine; recorded histories of the real object validated against it by TLC"
TECH["L17"] = "TLA+ specification of replacing on top of the lexer specification; recorded outputs of every overload validated against it by TLC"
TECH["L18"] = "TLA+ specification of iterators and results objects, model checked; TLC-generated schedules replayed on the real ones, recorded states validated against it"
TECH["L19"] = "TLA+ specifications of shared stream iterators and memory files, model checked; TLC-generated schedules replayed on the real ones, recorded states validated against them"
TECH["L20"] = "TLA+ specification of the encodings and their iterators, model checked over all scalar values; TLC-generated schedules replayed, recorded conversions validated against it"
TECH["L22"] = "TLA+ lexer specification extended by features; recorded reports of every results type validated against it by TLC"
TECH["L23"] = "TLA+ specification of character sets as lists of ranges, model checked; TLC-generated and random histories replayed, recorded sets validated against it"
TECH["L24"] = "TLA+ specification of a rules object's locale on top of that of character sets; recorded histories of the real object and its lexers validated against it by TLC"
LEVEL = {}
NA = []
checks = []
for p in sorted(N):
    checks.append({"property": p, "quick_cmd": "python3 tools/check.py %s" % p, "thorough_cmd": "VERIF_TIER=thorough python3 tools/check.py %s" % p,
                   "evidence_file": "evidence/%s.json" % p, "technique": TECH.get(p, TV), "level": LEVEL.get(p, "model_checking"), "level_note": N[p]})
props = [json.loads(l)["id"] for l in open(os.path.join(ROOT, "properties.jsonl"))]
for p in props:
    if p not in N and p not in [x["property"] for x in NA]: NA.append({"property": p, "reason": "check not built yet"})
m = {"version": 1, "setup_cmd": "mkdir -p evidence && command -v java g++ python3 >/dev/null", "checks": checks, "not_applicable": NA,
     "hooks": {"guard": "LEXERTL_VERIF", "enable": "none needed: every check uses the public API only, no hook was added to /repo", "source_commits": []},
     "notes": "Checks build harnesses from /repo's headers into a scratch directory under /tmp, removed at the end."}
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
