------------------------------- MODULE IterMC -------------------------------
(***************************************************************************)
(* Iterators under every schedule: two machines, three texts, a few slots. *)
(* The invariants state the property; the histories TLC walks through are  *)
(* also the schedules replayed on the real iterators (Emit).               *)
(***************************************************************************)
EXTENDS Iterators, TLC, Json

CONSTANTS Slots, Depth, Emit

Chr(x) == [k |-> "chr", c |-> x]
FL == [i |-> FALSE, dot |-> 1]
Rule(s, b, e, re, i, n, pu, po) == [st |-> s, bol |-> b, eol |-> e, re |-> re, fl |-> FL, id |-> i, uid |-> NPOS, nx |-> n, push |-> pu, pop |-> po, lazy |-> 0]
A == Chr(97)
B == Chr(98)
Lx == << [rules |-> <<Rule(0, 0, 0, A, 1, 0, -1, 0), Rule(0, 1, 0, B, 2, 0, -1, 0), Rule(0, 0, 0, Chr(10), SKIP, 0, -1, 0)>>, mac |-> <<>>],
         [rules |-> <<Rule(0, 0, 0, A, 1, 1, 0, 0), Rule(1, 0, 0, B, 0, 0, -1, 1), Rule(1, 0, 0, A, 3, 1, 0, 0)>>, mac |-> <<>>] >>
Ws == << <<97, 98, 97>>, <<10, 98, 97, 98>>, <<>> >>

VARIABLES sl, hist, alone
vars == <<sl, hist, alone>>

Ops == {<<"make", s, m, w, p, 0>> : s \in Slots, m \in 1..2, w \in 1..3, p \in {0, 1}}
       \cup {<<"res", s, m, w, 0, 0>> : s \in Slots, m \in 1..2, w \in {1}}
       \cup {<<"null", s>> : s \in Slots}
       \cup {<<k, s, d>> : k \in {"copy", "assign", "swap", "post"}, s \in Slots, d \in Slots}
       \cup {<<k, s>> : k \in {"inc", "self", "clear"}, s \in Slots}
       \cup {<<"reset", s, w>> : s \in Slots, w \in 1..2}

Ok(o) == /\ Enabled(sl, o)
         /\ o[1] \in {"make", "res"} => o[5] <= Len(Ws[o[4]])
         /\ o[1] \in {"copy", "assign", "swap"} => sl[o[2]].k # "end" \/ sl[o[3]].k # "end"

Init == sl = [s \in Slots |-> Null] /\ hist = <<>> /\ alone = [s \in Slots |-> <<>>]

\* `alone` remembers, for the lexer in each slot, only its own history: where
\* it was made and how often it was advanced.
NextAlone(o) ==
  LET a == o[2] IN
  CASE o[1] \in {"make", "res"} -> [alone EXCEPT ![a] = <<o, 0>>]
    [] o[1] = "null" -> [alone EXCEPT ![a] = <<>>]
    [] o[1] \in {"copy", "assign"} -> [alone EXCEPT ![o[3]] = alone[a]]
    [] o[1] = "swap" -> [alone EXCEPT ![o[3]] = alone[a], ![a] = alone[o[3]]]
    [] o[1] = "self" -> alone
    [] o[1] = "inc" -> [alone EXCEPT ![a] = <<alone[a][1], alone[a][2] + 1>>]
    [] o[1] = "post" -> [alone EXCEPT ![o[3]] = alone[a], ![a] = <<alone[a][1], alone[a][2] + 1>>]
    [] o[1] = "reset" -> [alone EXCEPT ![a] = << <<"res", a, sl[a].m, o[3], 0, 0>>, 0>>]
    [] o[1] = "clear" -> [alone EXCEPT ![a] = << <<"res", a, sl[a].m, sl[a].w, Len(Ws[sl[a].w]), 0>>, 0>>]

Next == /\ Len(hist) < Depth \/ Depth = 0
        /\ \E o \in Ops : /\ Ok(o)
                          /\ sl' = Apply(Lx, Ws, sl, o)
                          /\ hist' = IF Depth = 0 THEN hist ELSE Append(hist, o)
                          /\ alone' = NextAlone(o)

\* with Depth = 0 the state space is closed: lexers at their ends stay there
Small == \A s \in Slots : alone[s] = <<>> \/ alone[s][2] <= 4

Spec == Init /\ [][Next]_vars

\* Long schedules for replay: one random operation per step, advancing often.
Kinds == <<"inc", "inc", "inc", "inc", "inc", "post", "post", "copy", "assign", "assign", "make", "make", "make", "res", "swap", "reset", "clear", "self", "null">>
GenNext ==
  /\ Len(hist) < Depth
  /\ LET k == Kinds[RandomElement(1..Len(Kinds))]
         S == {o \in Ops : o[1] = k /\ Ok(o)}
         T == IF S = {} THEN {o \in Ops : o[1] = "make" /\ Ok(o)} ELSE S
     IN \E o \in {RandomElement(T)} : /\ sl' = Apply(Lx, Ws, sl, o)
                                      /\ hist' = Append(hist, o)
                                      /\ alone' = NextAlone(o)
GenSpec == Init /\ [][GenNext]_vars

\* --- the property -----------------------------------------------------------
RECURSIVE Steps(_, _)
Steps(s, n) == IF n = 0 \/ s.k = "end" THEN s ELSE Steps(Advance(Lx, Ws, s), n - 1)
Replayed(s) == IF alone[s] = <<>> THEN Null
               ELSE LET o == alone[s][1]
                    IN Steps(Apply(Lx, Ws, [x \in Slots |-> Null], [o EXCEPT ![2] = s])[s], alone[s][2])
\* every lexer stands exactly where its own history alone would have put it
Independent == \A s \in Slots : sl[s] = Replayed(s)
\* equal ones yield the same from then on, and only ends are equal to ends
EqMeans == \A s, d \in Slots : (sl[s].k = "it" /\ sl[d].k = "it" /\ Eq(sl[s], sl[d])) =>
                                  Advance(Lx, Ws, sl[s]) = Advance(Lx, Ws, sl[d])
EndMeans == \A s \in Slots : sl[s].k = "it" => sl[s].rep.f < Len(Ws[sl[s].w])
Shows == (Emit /\ Len(hist) = Depth) => PrintT("@" \o ToJson(hist))
=============================================================================
