---------------------------- MODULE CharRangesTrace ----------------------------
(***************************************************************************)
(* Trace validation of sets of characters: the ranges of every slot, what  *)
(* each says of itself, and how each two compare, after every operation.   *)
(***************************************************************************)
EXTENDS CharRanges, TLC, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.CASES)
Obs   == ndJsonDeserialize(IOEnv.OBS)
VARIABLES c, n, v, bad
vars == <<c, n, v, bad>>
Slots == {1, 2, 3}

Bounds(o) == IF o[1] = "one" THEN {o[3]} ELSE IF o[1] \in {"two", "ins"} THEN {o[3], o[4]} ELSE {}
Top == Cases[c].max
All == LET B == UNION {Bounds(Cases[c].ops[k]) : k \in 1..Len(Cases[c].ops)} \cup {0, Top}
       IN {p \in UNION {{b - 1, b, b + 1} : b \in B} : 0 <= p /\ p <= Top}
Pts == SetToSortSeq(All, LAMBDA a, b : a < b)

Init == c \in 1..Len(Cases) /\ n = 0 /\ v = [s \in Slots |-> {}] /\ bad = ""

B01(x) == IF x THEN 1 ELSE 0
Says(r) == <<B01(r = <<>>), Len(r), B01(r = << <<0, Top>> >>), B01(2 * Total(r, 1) > Top)>>
Verdict(new, ob) ==
  LET want == [s \in Slots |-> Ranges(Pts, new[s])]
      W == {s \in Slots : ob.s[s] # want[s]}
      Q == {s \in Slots : ob.q[s] # Says(want[s])}
      \* m[s][u]: <<less, equal>>
      E == {p \in Slots \X Slots : ob.m[p[1]][p[2]][2] # B01(want[p[1]] = want[p[2]])}
      \* exactly one of less, equal, greater; and less is transitive
      Lt(s, u) == ob.m[s][u][1] = 1
      O == {p \in Slots \X Slots : B01(Lt(p[1], p[2])) + B01(Lt(p[2], p[1])) + ob.m[p[1]][p[2]][2] # 1}
      T == {p \in Slots \X Slots \X Slots : Lt(p[1], p[2]) /\ Lt(p[2], p[3]) /\ ~Lt(p[1], p[3])}
  IN CASE W # {} -> "ranges: expected " \o ToString(want) \o " recorded " \o ToString(ob.s)
       [] Q # {} -> "<<empty, size, any, negatable>> of " \o ToString(Q) \o ": expected " \o ToString([s \in Slots |-> Says(want[s])]) \o " recorded " \o ToString(ob.q)
       [] E # {} -> "equality of " \o ToString(E)
       [] O # {} \/ T # {} -> "order of " \o ToString(O \cup T)
       [] OTHER -> ""

Step ==
  /\ bad = "" /\ n < Len(Cases[c].ops)
  /\ LET new == ApplySet(All, v, Cases[c].ops[n + 1])
     IN v' = new /\ bad' = Verdict(new, Obs[c].r[n + 1])
  /\ n' = n + 1 /\ UNCHANGED c
Spec == Init /\ [][Step]_vars
Conforms == bad = ""
=============================================================================
