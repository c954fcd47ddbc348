----------------------------- MODULE CharRangesMC -----------------------------
(* Histories of character sets over a small alphabet, for replay. *)
EXTENDS CharRanges, TLC, Json
CONSTANTS Depth, Top
VARIABLES v, hist
vars == <<v, hist>>
Slots == {1, 2, 3}
All == 0..Top
Pts == [j \in 1..Top + 1 |-> j - 1]
Pairs == {p \in All \X All : p[1] <= p[2]}
Ops == {<<"one", s, x>> : s \in Slots, x \in All}
       \cup {<<k, s, p[1], p[2]>> : k \in {"two", "ins"}, s \in Slots, p \in Pairs}
       \cup {<<k, s>> : k \in {"new", "neg", "clear"}, s \in Slots}
       \cup {<<"add", s, u>> : s \in Slots, u \in Slots}
       \cup {<<k, p[1], p[2]>> : k \in {"rem", "swap", "copy"}, p \in {q \in Slots \X Slots : q[1] # q[2]}}
       \cup {<<"int", p[1], p[2], p[3]>> : p \in {q \in Slots \X Slots \X Slots : Cardinality({q[1], q[2], q[3]}) = 3}}
Init == v = [s \in Slots |-> {}] /\ hist = <<>>
Do(o) == v' = ApplySet(All, v, o) /\ hist' = Append(hist, o)
Next == Len(hist) < Depth /\ \E o \in Ops : Do(o)
\* a kind of operation first, so that the many ranges do not drown the others
Kind == <<"one", "two", "new", "neg", "clear", "add", "rem", "swap", "copy", "int", "neg", "rem", "int", "add", "ins", "ins", "ins", "ins", "ins", "ins">>
GenNext == Len(hist) < Depth /\ \E k \in {RandomElement(1..Len(Kind))} : \E o \in {RandomElement({q \in Ops : q[1] = Kind[k]})} : Do(o)
Spec == Init /\ [][Next]_vars
GenSpec == Init /\ [][GenNext]_vars

\* the state space of the values alone
ValNext == \E o \in Ops : v' = ApplySet(All, v, o) /\ UNCHANGED hist
ValSpec == Init /\ [][ValNext]_vars

R(s) == Ranges(Pts, v[s])
Members(r) == UNION {r[k][1]..r[k][2] : k \in 1..Len(r)}
\* the list is the set, in order, and no two ranges could be one
Exact == \A s \in Slots : Members(R(s)) = v[s]
Normal == \A s \in Slots : /\ \A k \in 1..Len(R(s)) : R(s)[k][1] <= R(s)[k][2]
                           /\ \A k \in 1..Len(R(s)) - 1 : R(s)[k][2] + 1 < R(s)[k + 1][1]
Unique == \A s, u \in Slots : (R(s) = R(u)) = (v[s] = v[u])
Counted == \A s \in Slots : Total(R(s), 1) = Cardinality(v[s])
\* what an operation does not name it leaves alone, and the shared part of
\* two sets and what is left of them make up the two
Kept == [][\A o \in {q \in Ops : q[1] = "int"} : v' = ApplySet(All, v, o) =>
             /\ v'[o[2]] \cap v'[o[3]] = {} /\ v'[o[2]] \cup v'[o[3]] \cup (v[o[2]] \cap v[o[3]]) = v[o[2]] \cup v[o[3]]]_v
Emits == Len(hist) = Depth => PrintT("@" \o ToJson(hist))
=============================================================================
