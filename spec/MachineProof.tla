---------------------------- MODULE MachineProof ----------------------------
(***************************************************************************)
(* Does a built machine do, on every text, what its rules denote?  The     *)
(* machine is walked together with what is left to match of every rule     *)
(* (its partial derivatives, after Antimirov); the pairs reached are       *)
(* finitely many, so that the comparison covers texts of every length.     *)
(* In each pair the machine must report exactly the rule that the lexer    *)
(* specification picks: the first of the rules matched, a rule whose end   *)
(* of line anchor is satisfied before one without.                         *)
(* A case: [lex, dfas]; dfas[d] = [m, k, nl, rp, en] with m the machine of *)
(* start state d - 1, rp[x] a character of class x.                        *)
(***************************************************************************)
EXTENDS Machine, Lexer, Deriv, TLC, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.CASES)

VARIABLES c, d, s, rest
vars == <<c, d, s, rest>>

Case == Cases[c]
M == Case.dfas[d]
L == IF "rev" \in DOMAIN Case /\ Case.rev = 1 THEN RevLexer(Case.lex) ELSE Case.lex
NL == {M.nl[k] : k \in 1..Len(M.nl)}

\* rules of the start state
Mine == {k \in 1..Len(L.rules) : L.rules[k].st = d - 1}

Init ==
  /\ c \in 1..Len(Cases)
  /\ d \in 1..Len(Cases[c].dfas)
  /\ \E bol \in {0, 1} :
       /\ s = Start(M.m, bol)
       /\ rest = [k \in Mine |-> IF L.rules[k].bol = 1 /\ bol = 0 THEN {}
                                 ELSE {<<Item(L.rules[k].re, L.rules[k].fl)>>}]

Step ==
  /\ s # 0 \/ \E k \in Mine : rest[k] # {}
  /\ \E x \in 1..M.k :
       /\ s' = Go(M.m, s, x, NL)
       /\ rest' = [k \in Mine |-> UNION {PD(t, M.rp[x], L.mac) : t \in rest[k]}]
  /\ UNCHANGED <<c, d>>

Spec == Init /\ [][Step]_vars

Matched == {k \in Mine : \E t \in rest[k] : NullSeq(t, L.mac)}
First(S) == CHOOSE k \in S : \A j \in S : k <= j
RuleReport(k) == LET r == L.rules[k]
             IN <<r.id, IF r.id = 0 THEN 65535 ELSE r.uid, IF r.pop = 1 THEN -1 ELSE r.nx, r.push, r.pop>>
Pick(S) == IF S = {} THEN None ELSE RuleReport(First(S))

Shown(o) == IF o = None THEN None ELSE <<o[1], IF o[1] = 0 THEN 65535 ELSE o[2], o[3], o[4], o[5]>>

\* Reports of the machine and of the rules agree, inside and at line ends.
Agree == Shown(Out(M.m, s)) = Pick({k \in Matched : L.rules[k].eol = 0})
AgreeEol == Shown(OutEol(M.m, s)) =
              LET A == {k \in Matched : L.rules[k].eol = 1}
              IN IF A # {} THEN Pick(A) ELSE Pick({k \in Matched : L.rules[k].eol = 0})
\* A machine never goes on without hope: some rule can still be matched.
\* (Not required by the properties; a machine that broke this would still
\* report correctly.  Kept as an operator for the evidence.)
Alive == s # 0 => \E k \in Mine : rest[k] # {}
=============================================================================
