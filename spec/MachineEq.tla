------------------------------ MODULE MachineEq ------------------------------
(***************************************************************************)
(* Do two machines behave the same on every text?  The reachable pairs of  *)
(* states of the two are explored; every pair must report the same.  A     *)
(* case is [mode, dfas], dfas a sequence of records [a, b, k, nl] (the two *)
(* machines for one start state, number of classes, newline classes).      *)
(*  mode "equiv"  same reports on all texts                                *)
(*       "same"   moreover equal state by state (dumps, loaded machines)   *)
(*       "graph"  the state graph only: ids of end states other than the   *)
(*                start state, successors (what the graph output shows)    *)
(*       "smaller" equivalent, and b has no more states than a             *)
(***************************************************************************)
EXTENDS Machine, TLC, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.CASES)

VARIABLES c, d, p, q
vars == <<c, d, p, q>>

Case == Cases[c]
M == Case.dfas[d]
NL == {M.nl[k] : k \in 1..Len(M.nl)}

Init ==
  /\ c \in 1..Len(Cases)
  /\ d \in 1..Len(Cases[c].dfas)
  /\ \E bol \in {0, 1} :
       /\ p = Start(Cases[c].dfas[d].a, bol)
       /\ q = Start(Cases[c].dfas[d].b, bol)

Step ==
  /\ p # 0 \/ q # 0
  /\ \E x \in 1..M.k :
       IF Case.mode = "graph"
       THEN /\ p' = IF p = 0 THEN 0 ELSE St(M.a, p)[8][x]
            /\ q' = IF q = 0 THEN 0 ELSE St(M.b, q)[8][x]
       ELSE /\ p' = Go(M.a, p, x, NL)
            /\ q' = Go(M.b, q, x, NL)
  /\ UNCHANGED <<c, d>>

Spec == Init /\ [][Step]_vars

SameReports == Case.mode # "graph" => (Out(M.a, p) = Out(M.b, q) /\ OutEol(M.a, p) = OutEol(M.b, q))

\* the whole tables, row by row
RowSame(r, s) ==
  /\ r[1] = s[1] /\ r[6] = s[6] /\ r[8] = s[8]
  /\ r[1] = 1 => (r[2] = s[2] /\ r[3] = s[3] /\ r[4] = s[4] /\ r[7] = s[7] /\ (r[7] = 0 => r[5] = s[5]))
SameTables ==
  Case.mode = "same" =>
    /\ M.a.bol = M.b.bol
    /\ Len(M.a.q) = Len(M.b.q)
    /\ \A k \in 2..Len(M.a.q) : RowSame(M.a.q[k], M.b.q[k])
SameGraph ==
  Case.mode = "graph" =>
    /\ Len(M.a.q) = Len(M.b.q)
    /\ \A k \in 2..Len(M.a.q) :
         /\ M.a.q[k][8] = M.b.q[k][8]
         /\ k > 2 => (M.a.q[k][1] = M.b.q[k][1] /\ (M.a.q[k][1] = 1 => M.a.q[k][2] = M.b.q[k][2]))
         \* where a match leads, when there is more than one start state
         /\ (M.a.q[k][1] = 1 /\ M.a.q[k][7] = 0 /\ Len(Case.dfas) > 1) => M.a.q[k][5] = M.b.q[k][5]
NotLarger == Case.mode = "smaller" => Len(M.b.q) <= Len(M.a.q)
=============================================================================
