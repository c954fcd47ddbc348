-------------------------------- MODULE LexerMC --------------------------------
(***************************************************************************)
(* The lexer specification checked on its own, exhaustively: every text up *)
(* to a length over a small alphabet, every lexer of a small catalogue     *)
(* (competing rules, anchors, skip and continuation rules, a stack).       *)
(***************************************************************************)
EXTENDS Lexer

CONSTANTS MaxLen, Alphabet

VARIABLES k, w, cfg, rep, n
vars == <<k, w, cfg, rep, n>>

a == 97
b == 98
C(x) == [k |-> "chr", c |-> x]
Cat(s) == [k |-> "cat", a |-> s]
Alt(s) == [k |-> "alt", a |-> s]
Rep(x, lo, hi) == [k |-> "rep", n |-> x, lo |-> lo, hi |-> hi]
Fl == [i |-> FALSE, dot |-> 1]
R(st, re, id, nx) == [st |-> st, bol |-> 0, eol |-> 0, re |-> re, fl |-> Fl, id |-> id, uid |-> NPOS,
                      nx |-> nx, push |-> -1, pop |-> 0, lazy |-> 0]
Bol(r) == [r EXCEPT !.bol = 1]
Eol(r) == [r EXCEPT !.eol = 1]
Push(r, s) == [r EXCEPT !.push = s]
Pop(r) == [r EXCEPT !.pop = 1]
Lx(rules) == [rules |-> rules, mac |-> <<>>]

Catalogue == <<
  Lx(<<R(0, Rep(C(a), 1, -1), 1, 0), R(0, Cat(<<C(a), C(b)>>), 2, 0), R(0, C(a), 3, 0)>>),
  Lx(<<R(0, C(a), 1, 0), R(0, Rep(Alt(<<C(a), C(b)>>), 2, 3), 2, 0), R(0, C(LF), SKIP, 0)>>),
  Lx(<<Bol(R(0, C(a), 1, 0)), Eol(R(0, C(a), 2, 0)), R(0, Rep(C(b), 1, -1), 3, 0), R(0, C(LF), 4, 0)>>),
  Lx(<<R(0, C(a), 0, 0), R(0, C(b), 1, 0)>>),
  Lx(<<R(0, C(a), SKIP, 1), R(0, C(b), 2, 0), R(1, C(b), SKIP, 0), R(1, C(a), 3, 1)>>),
  Lx(<<Push(R(0, C(a), 1, 1), 0), Push(R(1, C(a), 2, 1), 1), Pop(R(1, C(b), 3, 0)), R(0, C(b), 4, 0)>>),
  Lx(<<Push(R(0, C(a), 0, 1), 0), Push(R(1, C(a), 0, 1), 1), Pop(R(1, C(b), 3, 0)), R(1, C(LF), 0, 1)>>),
  Lx(<<Push(R(0, C(a), 0, 1), 0), Push(R(1, C(a), 5, 1), 0), Pop(R(1, C(b), SKIP, 0)), Pop(R(0, C(b), 6, 0))>>) >>

L == Catalogue[k]

Init ==
  /\ k \in 1..Len(Catalogue)
  /\ w \in UNION {[1..m -> Alphabet] : m \in 0..MaxLen}
  /\ cfg = Config(0, 0, <<>>)
  /\ rep = [id |-> -9, uid |-> 0, f |-> 0, s |-> 0, c |-> cfg]
  /\ n = 0

Done == n > 0 /\ Final(w, rep)

Next ==
  /\ ~Done
  /\ rep' = NextReport(L, w, cfg)
  /\ cfg' = rep'.c
  /\ n' = n + 1
  /\ UNCHANGED <<k, w>>

Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

\* --- properties -----------------------------------------------------------
Ok == n > 0 /\ rep.id >= 0
InText == Ok => rep.f <= rep.s /\ rep.s <= Len(w) /\ rep.s = cfg.pos
OneReportPerCharacter == n <= Len(w) + 1
OneChar == (Ok /\ rep.id = NPOS) => rep.s = rep.f + 1
NoSkip == Ok => rep.id # SKIP
EndOnce == (Ok /\ rep.id = EOI /\ rep.f = Len(w)) => rep.s = Len(w)
\* nothing is remembered that was not pushed by a rule
StackSane == \A j \in 1..Len(cfg.stk) :
               \E r \in 1..Len(L.rules) : L.rules[r].push = cfg.stk[j][1] /\ L.rules[r].id = cfg.stk[j][2]
ErrorOnlyOnUnderflow == (rep.id = -1) => cfg.err /\ cfg.stk = <<>>
\* the longest match: no rule of the active state matches further
Longest == \A st \in {cfg.st} : cfg.pos < Len(w) =>
             LET m == Best(L, w, st, cfg.pos)
             IN \A r \in 1..Len(L.rules) : L.rules[r].st = st =>
                  \A e \in RuleEnds(L, L.rules[r], w, cfg.pos) :
                     e <= m.e /\ (e = m.e => m.r <= r \/ L.rules[m.r].eol > L.rules[r].eol)
Forward == [][cfg'.pos >= cfg.pos /\ (rep'.id = -1 \/ rep'.f >= cfg.pos)]_vars
Progress == [][rep'.id = -1 \/ rep'.s > cfg.pos \/ rep'.f = Len(w)]_vars
Terminates == <>Done
=============================================================================
