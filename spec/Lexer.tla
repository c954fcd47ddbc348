-------------------------------- MODULE Lexer --------------------------------
(***************************************************************************)
(* The lexer as a state machine over an input text: position, active start *)
(* state, stack of remembered start states.  One report of the lexer is    *)
(* one transition.                                                         *)
(*                                                                         *)
(* A lexer description L is a record                                       *)
(*   rules : sequence of rules in the order they were added, each          *)
(*     st    start state (0 is INITIAL) the rule belongs to                *)
(*     bol, eol   anchors (0/1)                                            *)
(*     re    expression (module Regex),  fl  options it was added under    *)
(*     id    token id; 0 = continuation ("again"); SKIP = not reported     *)
(*     uid   user id                                                       *)
(*     nx    start state after a match (ignored for pop)                   *)
(*     push  start state to remember, or -1                                *)
(*     pop   0/1                                                           *)
(*   mac   : macros                                                        *)
(***************************************************************************)
EXTENDS Regex

NPOS == 65535
SKIP == 65534
EOI == 0

AtBol(w, p) == p = 0 \/ w[p] = LF
AtEol(w, e) == e = Len(w) \/ w[e + 1] = LF \/ w[e + 1] = CR

\* Ends of non-empty matches of one rule at p.
RuleEnds(L, r, w, p) ==
  IF r.bol = 1 /\ ~AtBol(w, p) THEN {}
  ELSE {e \in Ends(r.re, r.fl, L.mac, w, {p}) : e > p /\ (r.eol = 0 \/ AtEol(w, e))}

SetMax(S) == CHOOSE x \in S : \A y \in S : y <= x
SetMin(S) == CHOOSE x \in S : \A y \in S : x <= y

NoMatch == [e |-> -1, a |-> 0, r |-> 0]

\* A rule with a non-greedy repeat stops at its first satisfied point
\* (the generators only produce the forms for which the documentation fixes
\* the result; see DESIGN.md).
RuleEnd(L, r, w, p) ==
  LET S == RuleEnds(L, r, w, p)
  IN IF S = {} THEN -1 ELSE IF r.lazy = 1 THEN SetMin(S) ELSE SetMax(S)

\* Longest match; of equally long ones a rule whose end-of-line anchor is
\* satisfied (it has matched further: the end of the line); then the rule
\* added first.
RECURSIVE BestFrom(_, _, _, _, _, _)
BestFrom(L, w, st, p, k, best) ==
  IF k > Len(L.rules) THEN best
  ELSE LET r == L.rules[k]
           e == IF r.st = st THEN RuleEnd(L, r, w, p) ELSE -1
       IN BestFrom(L, w, st, p, k + 1,
                   IF e > best.e \/ (e = best.e /\ e > 0 /\ r.eol > best.a)
                   THEN [e |-> e, a |-> r.eol, r |-> k] ELSE best)
Best(L, w, st, p) == BestFrom(L, w, st, p, 1, NoMatch)

\* Lexer configurations: position, start state, stack (bottom first) of
\* <<return state, id of the pushing rule>>, err = stack underflow.
Config(p, st, stk) == [pos |-> p, st |-> st, stk |-> stk, err |-> FALSE]

ApplyRule(c, r, e) ==
  IF r.pop = 1
  THEN IF c.stk = <<>> THEN [c EXCEPT !.err = TRUE]
       ELSE [pos |-> e, st |-> c.stk[Len(c.stk)][1],
             stk |-> SubSeq(c.stk, 1, Len(c.stk) - 1), err |-> FALSE]
  ELSE [pos |-> e, st |-> r.nx,
        stk |-> IF r.push = -1 THEN c.stk ELSE Append(c.stk, <<r.push, r.id>>),
        err |-> FALSE]

\* After a match by rule r leading to configuration c: does the token go on?
\* A continuation rule always continues; a pop continues while the innermost
\* remaining remembered state was pushed by a continuation rule.
Continues(c, r) ==
  r.id = EOI \/ (r.pop = 1 /\ c.stk # <<>> /\ c.stk[Len(c.stk)][2] = EOI)

Report(id, uid, f, s, c) ==
  [id |-> id, uid |-> uid, f |-> f, s |-> s, c |-> c]

\* One report: from configuration c, the token having started at `first`.
RECURSIVE Lex(_, _, _, _)
Lex(L, w, c, first) ==
  IF c.err THEN Report(-1, 0, 0, 0, c)
  ELSE IF c.pos = Len(w) THEN Report(EOI, NPOS, first, c.pos, c)
  ELSE LET m == Best(L, w, c.st, c.pos)
       IN IF m.e = -1
          THEN \* nothing matches: exactly one character is reported unmatched
               Report(NPOS, NPOS, c.pos, c.pos + 1, [c EXCEPT !.pos = c.pos + 1])
          ELSE LET r == L.rules[m.r]
                   d == ApplyRule(c, r, m.e)
               IN CASE d.err -> Report(-1, 0, 0, 0, d)
                    [] r.id = SKIP -> Lex(L, w, d, m.e)
                    [] Continues(d, r) -> Lex(L, w, d, first)
                    [] OTHER -> Report(r.id, r.uid, first, m.e, d)

NextReport(L, w, c) == Lex(L, w, c, c.pos)

\* Lexing ends with the report that starts at the end of the text.
Final(w, rep) == rep.id = -1 \/ rep.f = Len(w)

\* The lexer for reversed texts: every expression reversed, anchors exchanged.
RevLexer(L) ==
  [rules |-> [k \in 1..Len(L.rules) |->
                [L.rules[k] EXCEPT !.re = Rev(L.rules[k].re),
                                   !.bol = L.rules[k].eol, !.eol = L.rules[k].bol]],
   mac   |-> [m \in 1..Len(L.mac) |-> [L.mac[m] EXCEPT !.n = Rev(L.mac[m].n)]]]

ReportBol(w, rep) == rep.s = 0 \/ w[rep.s] = LF
=============================================================================
