----------------------------- MODULE CharSetTrace -----------------------------
(***************************************************************************)
(* Recorded machines against the character sets of module CharSet.         *)
(*                                                                         *)
(* A case: wide, max the greatest character, rules a sequence of [e, i,    *)
(* dot] (expression and options), reps one character of every interval     *)
(* that neither the expressions nor the recorded machine tell apart.       *)
(* obs[k] is the number of the rule the machine reports after character    *)
(* reps[k], 0 none; err 1 when building was refused.                       *)
(***************************************************************************)
EXTENDS CharSet

Cases == ndJsonDeserialize(IOEnv.CASES)

VARIABLES c, wrong
vars == <<c, wrong>>

\* what a lexer of these rules reports for the one-character text x
FirstOf(C, x) ==
  LET S == {k \in 1..Len(C.rules) :
              In(C.rules[k].e, x, [i |-> C.rules[k].i, dot |-> C.rules[k].dot, wide |-> C.wide = 1, l |-> 0])}
  IN IF S = {} THEN 0 ELSE CHOOSE k \in S : \A j \in S : k <= j

\* a \p{...} class fits the alphabet
Fits(p, max) == LET R == CASE p.t = "cat" -> Uni.cat[p.n] [] p.t = "block" -> Uni.block[p.n] [] OTHER -> Uni.script[p.n]
                IN R[Len(R)][2] <= max
RECURSIVE FitsE(_, _)
FitsE(e, max) ==
  CASE e.k = "prop" -> Fits(e.p, max)
    [] e.k = "set" -> \A k \in 1..Len(e.it) : e.it[k].k = "prop" => Fits(e.it[k].p, max)
    [] e.k \in {"dif", "uni"} -> FitsE(e.a, max) /\ FitsE(e.b, max)
    [] OTHER -> TRUE
\* a set expression without members is refused
RECURSIVE Empties(_, _, _)
Empties(e, C, r) ==   \* some part of e is empty over the case's representatives
  LET f == [i |-> r.i, dot |-> r.dot, wide |-> C.wide = 1, l |-> 0]
      none == \A k \in 1..Len(C.reps) : ~In(e, C.reps[k], f)
  IN none \/ (e.k \in {"dif", "uni"} /\ (Empties(e.a, C, r) \/ Empties(e.b, C, r)))

Rejected(C) == \E k \in 1..Len(C.rules) : ~FitsE(C.rules[k].e, C.max) \/ Empties(C.rules[k].e, C, C.rules[k])

Init ==
  /\ c \in 1..Len(Cases)
  /\ wrong = LET C == Cases[c]
             IN IF C.err = 1
                THEN (IF Rejected(C) THEN {} ELSE {<<-1, 0, 0>>})
                ELSE IF Rejected(C) THEN {<<-2, 0, 0>>}
                ELSE {<<C.reps[k], FirstOf(C, C.reps[k]), C.obs[k]>> :
                        k \in {j \in 1..Len(C.reps) : FirstOf(C, C.reps[j]) # C.obs[j]}}
Next == UNCHANGED vars
Spec == Init /\ [][Next]_vars

\* the machine reports every character of the alphabet as the first rule
\* whose set has it (an empty or unrepresentable set is refused)
RightSet == wrong = {}
=============================================================================
