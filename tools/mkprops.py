#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (single source of the property texts)."""
import json, os
I = "include/lexertl/"
def P(id, title, statement, over, text, why, files, mech, state=None, obs=None):
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=[I + f for f in files],
                          mechanism=[dict(name=a, where=I + b) for a, b in mech],
                          hook_needed=None))
    if state: d["anchors"]["state"] = [dict(name=a, meaning=b, where=I + c) for a, b, c in state]
    if obs: d["anchors"]["observe_at"] = obs
    assert len(title) <= 80, title
    return d
T = "The stable tests are 9 fixed regex/text pairs for non-greedy operators, one UTF text, a list of regexes that must fail, and header inclusion; "
props = [
P("L01", "Longest match, earliest rule wins",
  "At every position of every input, a lexer built from a rule set returns the longest prefix of the remaining text that any rule of the active start state matches, reported with the id and user id of the earliest-added rule among those matching that longest prefix (a rule whose end-of-line anchor is satisfied goes before one without). When no rule matches a non-empty prefix it reports exactly one unmatched character with the reserved 'no match' id.",
  ["inputs", "programs", "configurations"], "all rule sets (regexes built from literals, sets, concatenation, alternation, groups, greedy repeats) and all input texts",
  T + "the claim is over every rule set and input; no test ever lexes with two competing greedy rules.",
  ["generator.hpp", "lookup.hpp", "partition/equivset.hpp", "partition/charset.hpp", "parser/parser.hpp", "rules.hpp"],
  [("position-automaton subset construction", "generator.hpp build_dfa/closure"), ("first end node wins", "generator.hpp closure_ex"), ("longest-match scan", "lookup.hpp next")],
  [("results", "position, id, start state of the lexer", "match_results.hpp")], ["lookup() results after every call"]),
P("L02", "No input is lost, duplicated or reordered, and lexing ends",
  "Iterating any lexer over any finite text visits the text left to right exactly once: each reported piece starts where the previous one ended apart from text consumed by skip rules or by an unfinished continuation, an unmatched report covers exactly one character, and the end is reported exactly once, after the last character, within at most one report per character. Neither lexing nor building ever reads outside the given text or writes outside its own storage.",
  ["inputs", "programs", "histories"], "all rule sets (any mixture of ordinary, skip, continuation, anchored and stack rules) and all inputs including ones no rule matches",
  T + "no test checks that the reported pieces partition an arbitrary input or that lexing terminates on all inputs.",
  ["lookup.hpp", "iterator.hpp", "match_results.hpp"],
  [("advance on no match", "lookup.hpp inc_end"), ("end-of-input test", "lookup.hpp next"), ("iterator end", "iterator.hpp lookup")]),
P("L03", "Line anchors",
  "A rule beginning with a start-of-line anchor matches only at the start of the text or directly after a newline, and a rule ending with an end-of-line anchor matches only directly before a carriage return, a newline or the end of the text. Anchors consume nothing and do not change which unanchored rules can match or how far; of two equally long matches one with a satisfied end-of-line anchor wins. (Not meant: a rule part that is exactly a newline competing with an end-of-line anchor, and an ungrouped alternation under an anchor.)",
  ["inputs", "programs", "configurations"], "all rule sets mixing anchored and unanchored rules, all texts with any arrangement of CR and LF, narrow and wide",
  T + "two of them end in an end-of-line anchor at end of text only; none has a start-of-line rule, a CR, or an anchored rule next to other rules.",
  ["generator.hpp", "lookup.hpp", "parser/parser.hpp", "rules.hpp"],
  [("start-of-line start state", "lookup.hpp bol_start_state; parser.hpp fixup_bol"), ("end-of-line transition", "lookup.hpp is_eol/check_eol"), ("anchor/newline clash repair", "generator.hpp prune_eol_clashes, fix_clashes")]),
P("L04", "Start states select exactly their own rules",
  "In a multi-state lexer only the rules added to the active start state (directly, through a list of states, or to all existing states) take part in a match, and after a match the active start state is exactly the one the winning rule names, or unchanged when the rule says to stay or nothing matched. A rule added through a list behaves in each listed state as if it had been added to that state alone.",
  ["inputs", "programs", "histories"], "all assignments of rules to start states, transitions and inputs",
  "No stable test builds a lexer with more than one start state.",
  ["rules.hpp", "generator.hpp", "lookup.hpp"],
  [("rule registration per state", "rules.hpp push(curr_dfa, regex, id, new_dfa)"), ("state switch", "lookup.hpp reset_start_state/start_state")],
  [("state", "active start state", "match_results.hpp")]),
P("L05", "Start-state stack discipline",
  "Rules that push enter their target state and remember the declared return state together with the rule's id; rules that pop return to the most recently remembered state, in strict last-in first-out order, to any depth. Popping with nothing remembered is reported as an error and never continues with an arbitrary state.",
  ["inputs", "histories", "programs"], "all sequences of push, pop and stay matches to any depth, on all inputs",
  "No stable test uses the state stack.",
  ["lookup.hpp", "rules.hpp", "match_results.hpp", "generator.hpp"],
  [("push/pop on match", "lookup.hpp pop"), ("push target parsing", "rules.hpp push")],
  [("stack", "remembered states and ids", "match_results.hpp")]),
P("L06", "Skip and continuation rules",
  "Text matched by a skip rule is never reported and the next token starts after it. Text matched by a rule without an id is prefixed to the next match in the resulting start state, so the reported token spans from the start of the first such match to the end of the final one and carries the final rule's ids; inside nested continuations this goes on until the outermost one is closed.",
  ["inputs", "programs"], "all rule sets with any number of skip and continuation rules across states (including nested ones through the stack) and all inputs",
  "Skip is used only as a single catch-all rule in one stable test; continuation rules are not used at all.",
  ["lookup.hpp", "rules.hpp"],
  [("skip / again loops", "lookup.hpp next"), ("nested continuation", "lookup.hpp is_id_eoi")]),
P("L07", "Non-greedy repeats match as little as possible",
  "A rule whose non-greedy repeats have no upper bound stops at the first point where the whole rule is satisfied: a trailing non-greedy repeat contributes only its minimum count, and in a rule of the form prefix, non-greedy repeat, terminator the match ends at the first occurrence of the terminator. The text matched is always one the corresponding greedy rule would also accept, and other rules that cannot begin at the same place are not affected.",
  ["inputs", "programs"], "all rules of these forms over all sets, counts and terminators, alone or next to greedy rules, on all inputs",
  T + "nine fixed pairs are the whole coverage of the non-greedy construction.",
  ["abstemious.hpp", "generator.hpp", "partition/equivset.hpp", "parser/parser.hpp", "rules.hpp"],
  [("pruning trailing operators", "abstemious.hpp prune"), ("dropping non-greedy transitions from end states", "generator.hpp build_dfa"), ("alternative splitting", "rules.hpp split")]),
P("L08", "Regex operators mean what the documentation says",
  "The language of a regex is exactly the one its documented syntax denotes: alternation binds weaker than concatenation, which binds weaker than postfix repeats; counted repeats accept exactly the stated number of occurrences; groups, quoted strings, comments, ignored whitespace, inline options and macro references have exactly the effect of writing out the expression they stand for.",
  ["programs", "inputs", "configurations"], "all regexes of the documented grammar under all option flags, and all inputs",
  T + "no test compares the language accepted by operators, counted repeats, macros or inline options with anything.",
  ["parser/parser.hpp", "parser/tokeniser/re_tokeniser.hpp", "parser/tokeniser/re_tokeniser_helper.hpp", "parser/tokeniser/re_tokeniser_state.hpp", "parser/tokeniser/re_token.hpp", "parser/tree/node.hpp", "parser/tree/sequence_node.hpp", "parser/tree/selection_node.hpp", "parser/tree/iteration_node.hpp", "rules.hpp"],
  [("operator-precedence parser", "parser/parser.hpp"), ("repeat expansion by copying subtrees", "parser/parser.hpp repeatn, parser/tree/node.hpp copy"), ("macro expansion", "rules.hpp process_macro")]),
P("L09", "Character sets contain exactly the documented characters",
  "Every character-set notation (ranges, negation, escapes, shorthand and POSIX classes, Unicode general categories, the dot under each newline option, set difference and union, case-insensitive matching) accepts exactly the characters its definition lists and no other, for every character of the alphabet, in narrow and wide lexers. Ignoring case adds to the listed characters the upper-case form of every lower-case letter and the lower-case form of every upper-case one (Unicode simple mappings in wide lexers, ASCII in narrow ones), before any negation. An empty set and a Unicode category, block or script that goes beyond the alphabet are refused.",
  ["inputs", "programs", "configurations"], "all set notations and combinations of them, all characters (all 256 narrow, all of Unicode for wide)",
  "The stable tests use a handful of ASCII classes; none enumerates the characters a set accepts.",
  ["parser/tokeniser/re_tokeniser.hpp", "parser/tokeniser/re_tokeniser_helper.hpp", "string_token.hpp", "parser/tokeniser/unicode.hpp", "parser/tokeniser/fold.inc", "parser/parser.hpp"],
  [("set algebra on ranges", "string_token.hpp insert/remove/negate/intersect"), ("class and escape parsing", "parser/tokeniser/re_tokeniser_helper.hpp"), ("wide ranges split into byte sequences", "parser/parser.hpp create_sequence")]),
P("L10", "Narrow and wide lexers agree",
  "The same rules over the same text give the same sequence of tokens (ids, start states and character positions) whether the lexer is built for 8-bit, 16-bit or 32-bit characters, for all text whose characters fit all of them.",
  ["inputs", "programs", "configurations"], "all rule sets and all texts over characters representable in every width",
  "No stable test runs a wide lexer against a narrow one; wide lexers use a different table construction and scan.",
  ["generator.hpp", "lookup.hpp", "parser/parser.hpp", "sm_traits.hpp", "char_traits.hpp"],
  [("multi-byte transitions", "lookup.hpp next_char"), ("byte-sequence construction", "parser/parser.hpp create_sequence"), ("anchor repair for wide tables", "generator.hpp fix_clashes (compressed)")]),
P("L11", "Minimisation preserves behaviour",
  "Minimising any built state machine leaves its token sequence unchanged on every input, including ids, user ids, start-state switches, stack effects and anchors, and never increases the number of states; minimising again changes nothing.",
  ["programs", "inputs"], "all rule sets, all inputs, both machine representations",
  "No stable test minimises a machine.",
  ["state_machine.hpp"],
  [("row merging and renumbering", "state_machine.hpp minimise_dfa/remap")]),
P("L12", "Saved machines load back identically",
  "Saving any built state machine and loading it into any other machine object reproduces it exactly, whatever the target held before and whatever id type is used, so that the loaded machine gives the same tokens on every input.",
  ["programs", "inputs", "histories"], "all machines, all id widths, any previous content of the target",
  "Serialisation is only compiled, never executed, by the stable tests.",
  ["serialise.hpp", "stream_num.hpp", "internals.hpp"],
  [("field order and counts", "serialise.hpp save/load")]),
P("L13", "Generated C++ lexers behave like the runtime lexer",
  "The C++ source generated from any state machine, in each table style and with each option of the generator, compiles and its function returns, call after call on any input, the same token, positions and start state as the runtime lexer does with that machine.",
  ["programs", "inputs", "configurations"], "all machines, both table styles, skip/macro options, all inputs",
  "The stable tests only include the generator header; no generated code is compiled or run.",
  ["generate_cpp.hpp", "lookup.hpp"],
  [("emitted scanning loop", "generate_cpp.hpp generate_cpp"), ("table dump", "generate_cpp.hpp dump_tables")]),
P("L14", "The readable machine form and dumps describe the same machine",
  "The character-level form of a machine, whether built directly or converted from a table machine, minimised or not, accepts the same texts with the same ids, anchors and state changes as the table machine; the text dump and the graph output list exactly its states, end ids and transitions. A table machine over wide characters is converted byte by byte, as its tables are.",
  ["programs", "inputs"], "all narrow and wide machines, minimised and not",
  "No stable test converts, walks or prints a machine.",
  ["sm_to_csm.hpp", "state_machine.hpp", "debug.hpp", "dot.hpp", "generator.hpp"],
  [("conversion", "sm_to_csm.hpp; state_machine.hpp append"), ("dump", "debug.hpp dump"), ("graph", "dot.hpp dump")]),
P("L15", "Ill-formed rule sets are rejected and leave no trace",
  "Every rule set containing a syntax error, an unknown macro or state, a reserved id, an empty start state, a rule matching the empty text or a rule that can never match is rejected with an error (unless the option allowing it is set), and no valid rule set is rejected. A failed operation leaves the rules, macros and target machine exactly as they were.",
  ["programs", "histories", "fault_sequences"], "all sequences of rule-building calls, valid and invalid, followed by build attempts on fresh and used machines",
  "The stable tests check that some regexes fail; none checks that anything is unchanged afterwards, nor that unmatchable rules are found exactly.",
  ["rules.hpp", "generator.hpp", "parser/parser.hpp", "parser/tokeniser/re_tokeniser.hpp"],
  [("validation before mutation", "rules.hpp push/insert_macro"), ("build into a temporary", "generator.hpp build"), ("zero-length and suppressed checks", "generator.hpp check_zero_len/check_suppressed")]),
P("L16", "A rules object is the sum of the calls made on it",
  "A rules object after any sequence of calls (add state, add macro, add rule, change flags, clear one state, clear all) is equivalent to a fresh object given only the calls still in effect, in order; all overloads of a call are equivalent, clearing everything restores the freshly constructed object, and building does not change the rules.",
  ["histories", "programs"], "all call sequences, including reuse after clearing, in any interleaving of states and macros",
  "No stable test reuses or clears a rules object or mixes overloads.",
  ["rules.hpp", "generator.hpp"],
  [("parallel per-state vectors", "rules.hpp push/clear"), ("state naming", "rules.hpp push_state/state")]),
P("L17", "Search and replace",
  "Replacing with a machine that needs no stack substitutes exactly the texts the lexer reports (an unmatched character is reported, and so replaced, as one token), by the one text given, by the text listed for the token's id or by what the function listed for it makes of the token, leaves tokens not listed as they are, copies skipped text, text between tokens and an unfinished token at the end unchanged and in order, and gives the same result through every overload (string, C string, input range; output iterators of every kind), returning the output position just past what was written.",
  ["inputs", "programs", "configurations"], "all machines without push/pop rules, inputs, replacement texts and overloads",
  "replace is only compiled by the stable tests.",
  ["replace.hpp"],
  [("copy/replace loop", "replace.hpp")]),
P("L18", "Iterators and lexers over one machine are independent",
  "Any number of lexers (iterators, copies of iterators, result objects) over one shared unmodified machine, advanced in any interleaving, each yield exactly the sequence they would yield alone; copies continue from the copied position, equal positions compare equal and different ones do not, and every iterator compares equal to the end iterator exactly when its text is used up. Reset or cleared results behave as new ones.",
  ["schedules", "histories", "inputs"], "all interleavings of advance, copy, assign, compare and reset over several lexers",
  "Stable tests drive one iterator at a time.",
  ["iterator.hpp", "match_results.hpp", "lookup.hpp", "range.hpp"],
  [("all mutable state is in the results object", "lookup.hpp, match_results.hpp"), ("end marking", "iterator.hpp")]),
P("L19", "Stream and file input equal in-memory input",
  "Lexing through a shared stream iterator, with any initial buffer size and growth increment of at least one character, gives the same tokens as lexing the stream's whole content in memory; any number of copies of such an iterator, advanced, assigned, compared and destroyed in any order, each read the characters from their own position (an iterator as constructed stands where the first of its live copies does), and nothing is leaked or read after release. A memory-mapped file exposes exactly the file's content and releases it fully when closed or reopened.",
  ["histories", "inputs", "configurations"], "all stream contents, buffer sizes, increments and sequences of iterator operations",
  "The stream iterator and memory file are only compiled by the stable tests.",
  ["stream_shared_iterator.hpp", "memory_file.hpp"],
  [("buffer reload and index rebasing", "stream_shared_iterator.hpp reload_buffer"), ("client registration", "stream_shared_iterator.hpp copy/assign"), ("mapping lifetime", "memory_file.hpp open/close")],
  [("clients, buffer, indices", "live iterators and what they point at", "stream_shared_iterator.hpp")]),
P("L20", "UTF iterators convert without loss",
  "Reading well-formed UTF-8 or UTF-16 through the input iterators yields exactly the encoded code points, in order, with positions that map back to the start of each encoding; the output iterators produce exactly the standard encoding of each code point, so encoding and decoding are inverse for every code point; iterators at different units of the converted text compare different, those at the same unit equal, and moving an input iterator by n either way gives the n-th character from there. A text cut inside an encoding, or with a wrong unit where one should start or continue, is reported with an error and never read beyond its end. Lexing over converted text gives the tokens of that text.",
  ["inputs"], "all Unicode scalar values and all sequences of them, every forward/increment form",
  "One stable test converts one fixed text.",
  ["utf_iterators.hpp"],
  [("decoding", "utf_iterators.hpp basic_utf8_in_iterator, basic_utf16_in_iterator"), ("encoding", "utf_iterators.hpp basic_utf8_out_iterator, basic_utf16_out_iterator")]),
P("L21", "Reversed rules match reversed text",
  "After reversing a rules object, the lexer built from it accepts a text for a rule exactly when the original rule accepts the reversed text, with start and end anchors exchanged; reversing twice gives the original rules.",
  ["programs", "inputs"], "all rules of the documented grammar, including groups, repeats and anchors, and all texts",
  "No stable test reverses rules.",
  ["rules.hpp"],
  [("token reversal", "rules.hpp reverse")]),
P("L22", "A results object needs only the machine's features",
  "A built machine names exactly the features its rules use, and a results object made for any set of features that includes those gives the same tokens, states and stack as one made for all of them. Without the feature that advances over unmatched characters, such a character is reported as an empty piece standing before it, with the reserved id, and lexing goes on alike once the caller has stepped over it. Every such results object compiles, for any forward iterator.",
  ["configurations", "programs", "inputs"], "all 128 sets of features, all rule sets and all inputs",
  "The stable tests only use results objects with the default features.",
  ["lookup.hpp", "match_results.hpp", "enums.hpp", "generator.hpp"],
  [("features of a machine", "generator.hpp build, state_machine.hpp _features"), ("feature-dependent scanning", "lookup.hpp next, pop, inc_end")]),
P("L23", "Character sets as values",
  "After any sequence of inserting characters and ranges, inserting whole sets, negating, removing, intersecting, copying, clearing and swapping, a character set (basic_string_token) holds exactly the characters these operations say, kept as the one sorted list of maximal ranges. So equal sets compare equal, the order between sets is total and agrees with equality, and empty, size, any and negatable tell the truth; intersecting splits two sets into what they share and what each had alone.",
  ["inputs", "histories"], "all sets over the whole alphabet of every character type and all sequences of operations",
  "No stable test uses character sets directly.",
  ["string_token.hpp"],
  [("range list upkeep", "string_token.hpp insert, negate, remove, intersect")], ),
P("L24", "The locale of a rules object",
  "An 8-bit rules object takes the global locale when it is made and again at clear(); imbue() sets another and returns the one there was. The locale decides what the POSIX classes alpha, alnum, lower and upper mean and, under ignore-case, which characters a letter or set also stands for; nothing else depends on it. Every rule keeps the locale it was pushed under and every macro the one it was defined under, whatever is imbued later.",
  ["configurations", "histories", "inputs"], "all locales (any classification of the 256 characters and any case pairs), all sequences of imbue, flags, clear, macro and push, and all set expressions",
  "No stable test sets a locale.",
  ["rules.hpp", "parser/tokeniser/re_tokeniser_helper.hpp", "parser/tokeniser/re_tokeniser_state.hpp"],
  [("locale upkeep", "rules.hpp imbue, locale, clear"), ("letters and case of a locale", "re_tokeniser_helper.hpp fold, insert_letters")]),
]
with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for p in props: f.write(json.dumps(p) + "\n")
print(len(props))
