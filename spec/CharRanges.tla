------------------------------ MODULE CharRanges ------------------------------
(***************************************************************************)
(* Sets of characters as values: three of them, made, changed and combined *)
(* by the operations below.  What they hold is a set; what they show is    *)
(* the one list of maximal ranges of that set.                             *)
(*   new s | one s x | two s x y | ins s x y | add s u | neg s | rem s u   *)
(*   int s u v (what s and u share goes to v) | swap s u | clear s | copy s u *)
(* All is a set of points that tells any two of the values apart: the ends *)
(* of the alphabet and every bound in use with its neighbours.             *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt

Between(All, x, y) == {p \in All : x <= p /\ p <= y}

ApplySet(All, v, o) ==
  LET s == o[2]
  IN CASE o[1] \in {"new", "clear"} -> [v EXCEPT ![s] = {}]
       [] o[1] = "one" -> [v EXCEPT ![s] = {o[3]}]
       [] o[1] = "two" -> [v EXCEPT ![s] = Between(All, o[3], o[4])]
       [] o[1] = "ins" -> [v EXCEPT ![s] = @ \cup Between(All, o[3], o[4])]
       [] o[1] = "add" -> [v EXCEPT ![s] = @ \cup v[o[3]]]
       [] o[1] = "neg" -> [v EXCEPT ![s] = All \ @]
       [] o[1] = "rem" -> [v EXCEPT ![s] = @ \ v[o[3]]]
       [] o[1] = "int" -> [v EXCEPT ![s] = @ \ v[o[3]], ![o[3]] = @ \ v[s], ![o[4]] = @ \cup (v[s] \cap v[o[3]])]
       [] o[1] = "swap" -> [v EXCEPT ![s] = v[o[3]], ![o[3]] = v[s]]
       [] o[1] = "copy" -> [v EXCEPT ![s] = v[o[3]]]

\* the maximal ranges of S; pts is All in order
Ranges(pts, S) ==
  LET n == Len(pts)
      starts == SelectSeq([j \in 1..n |-> j], LAMBDA j : pts[j] \in S /\ (j = 1 \/ pts[j - 1] \notin S))
      ends == SelectSeq([j \in 1..n |-> j], LAMBDA j : pts[j] \in S /\ (j = n \/ pts[j + 1] \notin S))
  IN [k \in 1..Len(starts) |-> <<pts[starts[k]], pts[ends[k]]>>]

RECURSIVE Total(_, _)
Total(r, k) == IF k > Len(r) THEN 0 ELSE r[k][2] - r[k][1] + 1 + Total(r, k + 1)

\* order of two lists of ranges: an order that is total on values is asked
\* for, not a certain one
=============================================================================
