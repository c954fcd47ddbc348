------------------------------- MODULE Machine -------------------------------
(***************************************************************************)
(* A built state machine, as recorded from the library, on an alphabet of  *)
(* character classes (characters that no machine and no rule of the case   *)
(* tells apart).  Per start state a record                                 *)
(*   bol : state lexing starts in at the beginning of a line, 0: state 1   *)
(*   q   : sequence of states; state s (s >= 1) is q[s + 1], q[1] is the   *)
(*         dead state 0.  A state is                                       *)
(*         <<end, id, user id, push, next start state, eol, pop, t>>       *)
(*         where t[x] is the successor on class x                          *)
(* eol is the state entered, without consuming anything, when the next     *)
(* character is CR or LF or the text ends.                                 *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

St(D, s) == D.q[s + 1]
Start(D, bol) == IF bol = 1 /\ D.bol # 0 THEN D.bol ELSE 1

None == <<>>
\* What ending in state s reports: id, user id, start state afterwards
\* (-1 when popped), start state pushed (-1 none), pop.
Out(D, s) ==
  LET r == St(D, s)
  IN IF s = 0 \/ r[1] = 0 THEN None
     ELSE <<r[2], r[3], IF r[7] = 1 THEN -1 ELSE r[5],
            IF r[4] = 65535 THEN -1 ELSE r[4], r[7]>>

\* ... when the end of a line follows.
OutEol(D, s) ==
  LET e == IF s = 0 THEN 0 ELSE St(D, s)[6]
  IN IF e # 0 /\ Out(D, e) # None THEN Out(D, e) ELSE Out(D, s)

\* The next character is of class x; nl is the set of the classes of CR, LF.
Go(D, s, x, nl) ==
  IF s = 0 THEN 0
  ELSE LET e == St(D, s)[6]
           b == IF x \in nl /\ e # 0 THEN e ELSE s
       IN St(D, b)[8][x]
=============================================================================
