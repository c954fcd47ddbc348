------------------------------ MODULE RulesObj ------------------------------
(***************************************************************************)
(* The rules object as a state machine.  Its state is                      *)
(*    f      the flags                                                     *)
(*    names  the names of the start states; the first is INITIAL           *)
(*    mac    macros: name -> tokens                                        *)
(*    rules  per start state, the rules added to it                        *)
(*           [t text, k tokens, id, uid, nx, push, pop]                    *)
(*    feat   per start state, the features its rules use                   *)
(* and every operation either succeeds and changes it as written below or  *)
(* fails and changes nothing.  Apply(O, call) is the transition relation   *)
(* (a function: [ok, o]); Build(O) says what building a lexer comes to.    *)
(* Texts and names are sequences of character codes.                       *)
(***************************************************************************)
EXTENDS Syntax, Lexer, Deriv

Code == [INITIAL |-> <<73, 78, 73, 84, 73, 65, 76>>, star |-> <<42>>, dot |-> <<46>>]
DefaultFlags == 2

Fresh == [f |-> DefaultFlags, names |-> <<Code.INITIAL>>, mac |-> [n \in {} |-> <<>>], rules |-> << <<>> >>, feat |-> << {} >>]
Made(f) == [Fresh EXCEPT !.f = f]

NameOK(n) == n # <<>> /\ n[1] \in NameStart /\ \A j \in 1..Len(n) : n[j] \in NameChar
Known(O, n) == \E k \in 1..Len(O.names) : O.names[k] = n
Index(O, n) == (CHOOSE k \in 1..Len(O.names) : O.names[k] = n) - 1    \* the library counts from 0

No(O) == [ok |-> FALSE, o |-> O, to |-> <<>>]
Yes(P) == [ok |-> TRUE, o |-> P, to |-> <<>>]

\* ---------------------------------------------------------------- operations
\* max: the greatest number of start states the id type can count
PushState(O, n, max) ==
  IF ~NameOK(n) THEN No(O)
  ELSE IF Known(O, n) THEN Yes(O)
  ELSE IF Len(O.names) >= max THEN No(O)
  ELSE Yes([O EXCEPT !.names = Append(@, n), !.rules = Append(@, <<>>), !.feat = Append(@, {})])

InsertMacro(O, n, t) ==
  IF ~NameOK(n) \/ n \in DOMAIN O.mac THEN No(O)
  ELSE LET r == Read(t, FlagsOf(O.f), O.mac)
       IN IF r.ok THEN Yes([O EXCEPT !.mac = @ @@ (n :> r.toks)]) ELSE No(O)

\* names separated by commas
RECURSIVE Commas(_, _, _)
Commas(s, i, b) == IF i > Len(s) THEN <<SubSeq(s, b, Len(s))>>
                   ELSE IF s[i] = 44 THEN <<SubSeq(s, b, i - 1)>> \o Commas(s, i + 1, i + 1)
                   ELSE Commas(s, i + 1, b)
Cut(s, x) == IF \E k \in 1..Len(s) : s[k] = x THEN CHOOSE k \in 1..Len(s) : s[k] = x /\ \A j \in 1..k - 1 : s[j] # x ELSE 0

From(O, s) == LET L == Commas(s, 1, 1)
              IN IF s = Code.star THEN [ok |-> TRUE, to |-> [k \in 1..Len(O.names) |-> k - 1]]
                 ELSE IF \A k \in 1..Len(L) : NameOK(L[k]) /\ Known(O, L[k])
                 THEN [ok |-> TRUE, to |-> [k \in 1..Len(L) |-> Index(O, L[k])]] ELSE Fail

\* where to go after a match: "." stay, NAME, ">NAME" remembering the state
\* the rule is in, ">NAME:BACK" remembering BACK, "<" back to the last
\* remembered state.  [ok, stay, nx, push (-2: here, -1: nothing), pop]
Exit(O, s) ==
  LET e(st, nx, ps, pp) == [ok |-> TRUE, stay |-> st, nx |-> nx, push |-> ps, pop |-> pp]
      usable(n) == NameOK(n) /\ Known(O, n)
      t == SubSeq(s, 2, Len(s))
      c == Cut(t, 58)
      a == SubSeq(t, 1, c - 1)
      b == SubSeq(t, c + 1, Len(t))
  IN CASE s = Code.dot -> e(TRUE, 0, -1, 0)
       [] s # <<>> /\ s[1] = 60 -> e(FALSE, NPOS, -1, 1)
       [] s # <<>> /\ s[1] = 62 /\ c = 0 -> IF usable(t) THEN e(FALSE, Index(O, t), -2, 0) ELSE Fail
       [] s # <<>> /\ s[1] = 62 -> IF usable(a) /\ usable(b) THEN e(FALSE, Index(O, a), Index(O, b), 0) ELSE Fail
       [] OTHER -> IF usable(s) THEN e(FALSE, Index(O, s), -1, 0) ELSE Fail

Features(k, id, x) ==
  (IF HasBol(k) THEN {1} ELSE {}) \cup (IF HasEol(k) THEN {2} ELSE {})
  \cup (IF id = SKIP THEN {4} ELSE IF id = EOI THEN {8} ELSE {})
  \cup (IF x.push # -1 \/ x.pop = 1 THEN {32} ELSE {})

\* one rule to the states `to` (a sequence; a state named twice gets it twice)
RECURSIVE AddTo(_, _, _, _, _, _, _)
AddTo(O, to, k, t, id, uid, x) ==
  IF to = <<>> THEN O
  ELSE LET s == to[1] + 1
           e == [t |-> t, k |-> k, id |-> id, uid |-> uid, nx |-> IF x.stay THEN to[1] ELSE x.nx,
                 push |-> IF x.push = -2 THEN to[1] ELSE IF x.push = -1 THEN NPOS ELSE x.push, pop |-> x.pop]
       IN AddTo([O EXCEPT !.rules[s] = Append(@, e), !.feat[s] = @ \cup Features(k, id, x)], Tail(to), k, t, id, uid, x)

Push(O, from, t, id, to, uid, check) ==
  LET fr == From(O, from)
      x == Exit(O, to)
      r == Read(t, FlagsOf(O.f), O.mac)
  IN IF (check /\ id \in {EOI, NPOS}) \/ ~fr.ok \/ ~x.ok \/ ~r.ok THEN No(O)
     ELSE [ok |-> TRUE, o |-> AddTo(O, fr.to, r.toks, t, id, uid, x), to |-> fr.to]
\* an expression with non-greedy repeats that would rather match nothing may
\* be refused at once (module SyntaxTrace)
MayRefuse(O, t) == LET r == Read(t, FlagsOf(O.f), O.mac)
                   IN r.ok /\ IsLazy(r.toks) /\ \E k \in 1..Len(RuleAlts(r.toks)) : Null(RuleAlts(r.toks)[k].re, <<>>)

Clear1(O, d) == IF d >= Len(O.names) THEN O
                ELSE [O EXCEPT !.rules[d + 1] = <<>>, !.feat[d + 1] = {}]

\* the rules of INITIAL are not pushed through a name
PushInitial(O, t, id, uid) == Push(O, Code.INITIAL, t, id, Code.INITIAL, uid, TRUE)

Apply(O, c, max) ==
  CASE c[1] = "state"  -> PushState(O, c[2], max)
    [] c[1] = "macro"  -> InsertMacro(O, c[2], c[3])
    [] c[1] = "push"   -> PushInitial(O, c[2], c[3], NPOS)
    [] c[1] = "pushu"  -> PushInitial(O, c[2], c[3], c[4])
    [] c[1] = "pushn"  -> Push(O, c[2], c[3], EOI, c[4], NPOS, FALSE)
    [] c[1] = "pushs"  -> Push(O, c[2], c[3], c[4], c[5], NPOS, TRUE)
    [] c[1] = "pushsu" -> Push(O, c[2], c[3], c[4], c[5], c[6], TRUE)
    [] c[1] = "flags"  -> Yes([O EXCEPT !.f = c[2]])
    [] c[1] = "clear"  -> Yes(Fresh)
    [] c[1] = "clear1" -> Yes(Clear1(O, c[2]))
    [] c[1] = "build"  -> Yes(O)

\* ------------------------------------------------------------------ building
Fl0 == [i |-> FALSE, dot |-> 0]
\* rules as alternatives: [r, bol, eol, re], r the number of the rule
RECURSIVE AltsFrom(_, _)
AltsFrom(R, k) == IF k > Len(R) THEN <<>>
                  ELSE LET A == RuleAlts(R[k].k)
                       IN [j \in 1..Len(A) |-> [r |-> k, bol |-> A[j].bol, eol |-> A[j].eol, re |-> A[j].re]] \o AltsFrom(R, k + 1)
ZeroAlt(a) == Null(a.re, <<>>) /\ (a.bol = 0 \/ a.eol = 1)

\* one character of every class that no set of the rules divides
RECURSIVE Parts(_, _)
Parts(Ls, P) == IF Ls = {} THEN P
                ELSE LET S == CHOOSE x \in Ls : TRUE
                     IN Parts(Ls \ {S}, ({B \cap S : B \in P} \cup {B \ S : B \in P}) \ {{}})
Leaves(R) == UNION {{R[k].k[j].s : j \in {i \in 1..Len(R[k].k) : R[k].k[i].t = "cs"}} : k \in 1..Len(R)}
Reps(R) == {CHOOSE x \in B : TRUE : B \in Parts(Leaves(R), {All})}

\* The rules that some text makes the first to match: walk what is left of
\* every alternative.
Hit(A, V) ==
  LET m == {j \in 1..Len(A) : \E t \in V[j] : NullSeq(t, <<>>)}
      rs(S) == IF S = {} THEN {} ELSE {A[CHOOSE j \in S : \A i \in S : j <= i].r}
  IN rs({j \in m : A[j].eol = 0}) \cup rs({j \in m : A[j].eol = 1})
RECURSIVE Walk(_, _, _, _, _)
Walk(A, X, todo, seen, used) ==
  IF todo = {} THEN used
  ELSE LET nx == UNION {{[j \in 1..Len(A) |-> UNION {PD(t, x, <<>>) : t \in V[j]}] : x \in X} : V \in todo} \ seen
       IN Walk(A, X, nx, seen \cup nx, used \cup UNION {Hit(A, V) : V \in nx})
Matchable(R) ==
  LET A == AltsFrom(R, 1)
      V(b) == [j \in 1..Len(A) |-> IF A[j].bol = 1 /\ ~b THEN {} ELSE {<<Item(A[j].re, Fl0)>>}]
      S == {V(TRUE), V(FALSE)}
  IN Walk(A, Reps(R), S, S, UNION {Hit(A, v) : v \in S})

\* Not decided here: rules with non-greedy repeats, and what the known
\* findings leave open (alternatives beside an anchored one; a newline after
\* an end of line anchor).
Undecided(R) ==
  \/ \E k \in 1..Len(R) : IsLazy(R[k].k)
  \/ \E k \in 1..Len(R) : (HasBol(R[k].k) \/ HasEol(R[k].k)) /\ Len(Alts(R[k].k)) > 1
  \/ (\E k \in 1..Len(R) : HasEol(R[k].k)) /\ \E k \in 1..Len(R) : \E j \in 1..Len(R[k].k) :
        R[k].k[j].t = "cs" /\ (LF \in R[k].k[j].s \/ CR \in R[k].k[j].s)

ZeroRule(R) == \E k \in 1..Len(R) : LET A == RuleAlts(R[k].k) IN \E j \in 1..Len(A) : ZeroAlt(A[j])

\* "yes", "no", or "open"
Build(O) ==
  LET B == 1..Len(O.names)
      empty == \E s \in B : O.rules[s] = <<>>
      zero == ~Bit(O.f, 16) /\ \E s \in B : ~Undecided(O.rules[s]) /\ ZeroRule(O.rules[s])
      lost == ~Bit(O.f, 32) /\ \E s \in B : ~Undecided(O.rules[s]) /\ Matchable(O.rules[s]) # 1..Len(O.rules[s])
  IN IF empty \/ zero \/ lost THEN "no"
     ELSE IF \E s \in B : Undecided(O.rules[s]) THEN "open" ELSE "yes"

\* the lexer (module Lexer) the rules describe
RECURSIVE LexRules(_, _)
LexRules(O, s) ==
  IF s > Len(O.names) THEN <<>>
  ELSE LET A == AltsFrom(O.rules[s], 1)
       IN [j \in 1..Len(A) |-> LET r == O.rules[s][A[j].r]
             IN [st |-> s - 1, bol |-> A[j].bol, eol |-> A[j].eol, re |-> A[j].re, fl |-> Fl0, id |-> r.id, uid |-> r.uid,
                 nx |-> r.nx, push |-> IF r.push = NPOS THEN -1 ELSE r.push, pop |-> r.pop, lazy |-> 0]]
          \o LexRules(O, s + 1)
LexerOf(O) == [rules |-> LexRules(O, 1), mac |-> <<>>]
CanLex(O) == \A s \in 1..Len(O.names) : ~Undecided(O.rules[s]) /\ ~ZeroRule(O.rules[s])
=============================================================================
