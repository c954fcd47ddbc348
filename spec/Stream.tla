-------------------------------- MODULE Stream --------------------------------
(***************************************************************************)
(* Shared stream iterators.  Every iterator stands at a position of the    *)
(* stream it reads; the buffer behind is nobody's business.  A slot is     *)
(*   Null                                 the null (end) iterator          *)
(*   [k |-> "master", g, w]               an iterator as constructed       *)
(*   [k |-> "at", g, w, p]                a copy at position p             *)
(* (w: which content, g: which stream object; p = Len(content): the end).  *)
(* An iterator as constructed holds nothing back; it stands where the      *)
(* first of its live copies does, and before any of them has moved at the  *)
(* beginning.  Otherwise its position is not defined (Undef).              *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, FiniteSets

Null == [k |-> "null"]
Undef == -1
Min(S) == CHOOSE x \in S : \A y \in S : x <= y

Held(ws, sl, g) == {sl[x].p : x \in {y \in DOMAIN sl : sl[y].k = "at" /\ sl[y].g = g /\ sl[y].p < Len(ws[sl[y].w])}}
Pos(ws, sl, moved, a) ==
  IF sl[a].k = "at" THEN sl[a].p
  ELSE LET H == Held(ws, sl, sl[a].g)
       IN IF H # {} THEN Min(H) ELSE IF sl[a].g \in moved THEN Undef ELSE 0

At(s, p) == [k |-> "at", g |-> s.g, w |-> s.w, p |-> p]

\* Operations <<name, slot, ..>>
Enabled(ws, sl, moved, o) ==
  LET a == sl[o[2]] IN
  CASE o[1] \in {"new", "null", "self"} -> TRUE
    [] o[1] \in {"copy", "assign"} -> o[2] # o[3] /\ (IF a.k = "null" THEN TRUE ELSE Pos(ws, sl, moved, o[2]) # Undef)
    [] o[1] = "swap" -> o[2] # o[3] /\ \A x \in {o[2], o[3]} : sl[x].k # "master"
    [] o[1] \in {"inc", "post", "read"} ->
         /\ o[1] = "post" => o[2] # o[3]
         /\ a.k # "null" /\ Pos(ws, sl, moved, o[2]) \notin {Undef, Len(ws[a.w])}

\* g is the number given to a new stream object
Apply(ws, sl, moved, g, o) ==
  LET a == o[2]
      here == IF sl[a].k = "null" THEN Null ELSE At(sl[a], Pos(ws, sl, moved, a))
  IN CASE o[1] = "new"  -> [sl EXCEPT ![a] = [k |-> "master", g |-> g, w |-> o[3]]]
       [] o[1] = "null" -> [sl EXCEPT ![a] = Null]
       [] o[1] = "self" -> sl
       [] o[1] \in {"copy", "assign"} -> [sl EXCEPT ![o[3]] = here]
       [] o[1] = "swap" -> [sl EXCEPT ![a] = sl[o[3]], ![o[3]] = sl[a]]
       [] o[1] = "read" -> [sl EXCEPT ![a] = here]
       [] o[1] = "inc"  -> [sl EXCEPT ![a] = At(here, here.p + 1)]
       [] o[1] = "post" -> [sl EXCEPT ![o[3]] = here, ![a] = At(here, here.p + 1)]
Moved(sl, moved, o) == IF o[1] \in {"inc", "post"} THEN moved \cup {sl[o[2]].g} ELSE moved

\* What can be seen of a slot: nothing / the end; an iterator as constructed;
\* the character at its position.
Shown(ws, s) == CASE s.k = "null" -> <<0>>
                  [] s.k = "master" -> <<2>>
                  [] s.p = Len(ws[s.w]) -> <<0>>
                  [] OTHER -> <<1, ws[s.w][s.p + 1]>>

\* Comparison: within one stream by position; every end equals the null one.
\* Not defined between streams, and where a position is not.
Defined(ws, sl, moved, a, b) ==
  LET x == sl[a]
      y == sl[b]
  IN /\ x.k # "null" => Pos(ws, sl, moved, a) # Undef
     /\ y.k # "null" => Pos(ws, sl, moved, b) # Undef
     /\ (x.k # "null" /\ y.k # "null") => x.g = y.g
Eq(ws, sl, moved, a, b) ==
  LET P(x) == IF sl[x].k = "null" \/ Pos(ws, sl, moved, x) = Len(ws[sl[x].w]) THEN -2 ELSE Pos(ws, sl, moved, x)
  IN P(a) = P(b)
=============================================================================
