------------------------------- MODULE FileTrace -------------------------------
(***************************************************************************)
(* Trace validation of memory files: content shown, pages of the files     *)
(* mapped into the process and descriptors held, after every operation.    *)
(***************************************************************************)
EXTENDS MemoryFile, TLC, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.CASES)
Obs   == ndJsonDeserialize(IOEnv.OBS)
VARIABLES c, n, sl, bad
vars == <<c, n, sl, bad>>
Slots == {1, 2}

RECURSIVE Expand(_)
Expand(r) == IF r = <<>> THEN <<>> ELSE [j \in 1..Head(r)[2] |-> Head(r)[1]] \o Expand(Tail(r))
Files == [f \in 1..Len(Cases[c].files) |-> Expand(Cases[c].files[f])]
Init == c \in 1..Len(Cases) /\ n = 0 /\ sl = [s \in Slots |-> Gone] /\ bad = ""

Shown(s) == LET b == Data(Files, s)
                x == Chars(b, Cases[c].wd)
            IN <<IF b = <<>> THEN 0 ELSE 1, Len(x), SubSeq(x, 1, IF Len(x) < 12 THEN Len(x) ELSE 12), Sum(x)>>
PagesHeld(new) == FoldLeft(LAMBDA acc, s : acc + Pages(Data(Files, new[s])), 0, <<1, 2>>)
Step ==
  /\ bad = "" /\ n < Len(Cases[c].ops)
  /\ LET new == Apply(sl, Cases[c].ops[n + 1])
         ob == Obs[c].r[n + 1]
         shown == [s \in Slots |-> Shown(new[s])]
     IN /\ sl' = new
        /\ bad' = IF ob.s # shown THEN "expected " \o ToString(shown) \o " recorded " \o ToString(ob.s)
                  ELSE IF ob.pages # PagesHeld(new) THEN "pages mapped: " \o ToString(PagesHeld(new)) \o " recorded " \o ToString(ob.pages)
                  ELSE IF ob.fds > Cardinality({s \in Slots : new[s].k = "open"}) THEN "descriptors left open: " \o ToString(ob.fds)
                  ELSE ""
  /\ n' = n + 1 /\ UNCHANGED c
Spec == Init /\ [][Step]_vars
Conforms == bad = ""
=============================================================================
