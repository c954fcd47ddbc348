------------------------------ MODULE MemoryFile ------------------------------
(***************************************************************************)
(* Memory-mapped files.  Objects open files (f > 0: the file f, 0: a       *)
(* missing one, -1: a directory), reopen, close and go away.  An object    *)
(* holds at most one file; what it held before is given back completely.   *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, FiniteSets, SequencesExt

Gone == [k |-> "gone"]
Closed == [k |-> "closed"]
Open(f) == IF f = 0 THEN Closed ELSE [k |-> "open", f |-> f]

Apply(sl, o) ==
  LET a == o[2] IN
  CASE o[1] = "new" -> [sl EXCEPT ![a] = Closed]
    [] o[1] \in {"newopen", "open"} -> [sl EXCEPT ![a] = Open(o[3])]
    [] o[1] = "close" -> [sl EXCEPT ![a] = IF sl[a].k = "gone" THEN Gone ELSE Closed]
    [] o[1] = "del" -> [sl EXCEPT ![a] = Gone]

\* bytes of the file an object shows
Data(files, s) == IF s.k = "open" /\ s.f > 0 THEN files[s.f] ELSE <<>>
\* its characters, wd bytes each, lowest byte first (the lower 16 bits)
Chars(b, wd) == [j \in 1..(Len(b) \div wd) |-> b[(j - 1) * wd + 1] + (IF wd > 1 THEN 256 * b[(j - 1) * wd + 2] ELSE 0)]
Sum(x) == FoldLeft(LAMBDA acc, y : (acc * 31 + y) % 1000003, 0, x)
Pages(b) == (Len(b) + 4095) \div 4096
=============================================================================
