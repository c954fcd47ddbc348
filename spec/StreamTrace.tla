------------------------------ MODULE StreamTrace ------------------------------
(***************************************************************************)
(* Trace validation: schedules of operations on shared stream iterators,   *)
(* replayed on the real ones; every slot and every comparison recorded     *)
(* after every operation.                                                  *)
(***************************************************************************)
EXTENDS Stream, TLC, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.CASES)
Obs   == ndJsonDeserialize(IOEnv.OBS)
Slots == 1..4

VARIABLES c, n, sl, moved, bad
vars == <<c, n, sl, moved, bad>>

Ws == Cases[c].in

Init == /\ c \in 1..Len(Cases) /\ n = 0
        /\ sl = [s \in Slots |-> Null] /\ moved = {}
        /\ bad = ""

Step ==
  /\ bad = "" /\ n < Len(Cases[c].ops)
  /\ LET o == Cases[c].ops[n + 1]
         ob == Obs[c].r[n + 1]
         new == Apply(Ws, sl, moved, n + 1, o)
         mv == Moved(sl, moved, o)
         shown == [s \in Slots |-> Shown(Ws, new[s])]
         P == {<<a, b>> \in Slots \X Slots : a < b /\ Defined(Ws, new, mv, a, b)}
         want == {p \in P : Eq(Ws, new, mv, p[1], p[2])}
         got == {<<ob.eq[j][1], ob.eq[j][2]>> : j \in 1..Len(ob.eq)} \cap P
     IN /\ sl' = new /\ moved' = mv
        /\ bad' = IF ~Enabled(Ws, sl, moved, o) THEN "schedule"
                  ELSE IF ob.s # shown THEN "expected " \o ToString(shown) \o " recorded " \o ToString(ob.s)
                  ELSE IF got # want THEN "equal are " \o ToString(want) \o " recorded " \o ToString(got)
                  ELSE IF ob.odd # 0 THEN "comparison is not symmetric"
                  ELSE IF n + 1 = Len(Cases[c].ops) /\ Obs[c].leak # 0 THEN "leaked " \o ToString(Obs[c].leak) \o " blocks"
                  ELSE ""
  /\ n' = n + 1 /\ UNCHANGED c

Spec == Init /\ [][Step]_vars
Conforms == bad = ""
=============================================================================
