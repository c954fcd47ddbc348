#!/usr/bin/env python3
"""Rewrites the `fixed:' lines of known_findings.txt from /repo's fix commits
(run by hand; no check runs it)."""
import os, subprocess
PROP = {  # subject line (start of it) -> property
"end-of-line clash pruning looked": "L03", "states sharing an end-of-line": "L03", "end-of-line clash pruning dropped": "L03",
"rules pushed to named states": "L16", "reversing rules": "L21", "wide ranges spanning": "L09", "saved machines streamed": "L12",
"machines over wide characters could": "L12", "minimising a character machine": "L14", "dumped character sets": "L14",
"character sets in graphs": "L14", "graphs led": "L14", "graphs streamed": "L14", "graphs of machines": "L14", "dumps streamed": "L14",
"letters of a locale": "L24", "generated": "L13", "[:print:]": "L09", "Unicode categories": "L09", "case-insensitive wide": "L09", "(?s:": "L08", "POSIX classes": "L09",
"long hex": "L15", "rules that match nothing": "L15", "repeated repeats": "L15", "macros that were rejected": "L15", "empty names": "L15",
"{-} or {+}": "L15", "a start state that could not": "L15", "rules beyond the range": "L15", "character set ids": "L15",
"wide rules anchored": "L09", "replace()": "L17", "iterators of recursive": "L18", "subview()": "L18", "stream_shared_iterator": "L19",
"assigning stream_shared": "L19", "memory files": "L19", "memory_file": "L19", "UTF output": "L20", "non-greedy alternatives": "L07",
"results objects of lexers": "L22",
}
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
fn = os.path.join(here, "known_findings.txt")
keep = [l for l in open(fn).read().split("\n") if l.startswith("KNOWN-FINDING:")]
repo = os.environ.get("LEXERTL_REPO", "/repo")
out = []
for l in subprocess.run(["git", "-C", repo, "log", "--reverse", "--format=%h %s"], capture_output=True, text=True, check=True).stdout.split("\n"):
    h, _, s = l.partition(" ")
    if not s.startswith("fix: "): continue
    s = s[5:]
    p = [v for k, v in PROP.items() if s.startswith(k)]
    if not p: raise SystemExit("no property for: " + s)
    out.append("fixed: property=%s %s %s" % (p[0], h, s))
open(fn, "w").write("\n".join(keep + out) + "\n")
