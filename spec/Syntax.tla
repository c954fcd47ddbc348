-------------------------------- MODULE Syntax --------------------------------
(***************************************************************************)
(* The concrete syntax of regular expressions: which texts are regular     *)
(* expressions at all, and which expression (module Regex) a text is.      *)
(*                                                                         *)
(* A text is a sequence of character codes of a narrow lexer.  Read(t, f,  *)
(* mac) is the outcome of reading t under flags f where mac maps names     *)
(* (sequences) to macros: [ok, toks], the tokens between the anchors and   *)
(* brackets being sets of characters; Tree(toks) the expression they form. *)
(*                                                                         *)
(*  tokens   cs s | or | op | cl | rep lo hi z | bol | eol                 *)
(*  flags    [i, dot, x, zero]  ignore case, dot 0/1/2 (see Regex), free   *)
(*           spacing, empty expressions allowed                            *)
(***************************************************************************)
EXTENDS Regex, TLC

All == 0..255
Bit(f, b) == (f \div b) % 2 = 1
FlagsOf(f) == [i |-> Bit(f, 1), dot |-> IF Bit(f, 2) THEN 1 ELSE IF Bit(f, 4) THEN 2 ELSE 0,
               x |-> Bit(f, 8), zero |-> Bit(f, 16)]

\* ------------------------------------------------------------- characters
Low == 97..122
Upp == 65..90
Dig == 48..57
Hex == Dig \cup (65..70) \cup (97..102)
Oct == 48..55
NameStart == Low \cup Upp \cup {95}
NameChar == NameStart \cup Dig \cup {45}
White == {32, 9, 10, 11, 12, 13}
Cased(S, fl) == IF fl.i THEN S \cup {Swap(c) : c \in S} ELSE S

Fail == [ok |-> FALSE]
At(t, i) == IF i <= Len(t) THEN t[i] ELSE -1       \* -1: the end

\* ------------------------------------------------------ numbers and escapes
RECURSIVE NumEnd(_, _, _), Num(_, _, _, _, _)
NumEnd(t, i, D) == IF At(t, i) \in D THEN NumEnd(t, i + 1, D) ELSE i
DigVal(c) == IF c >= 97 THEN c - 87 ELSE IF c >= 65 THEN c - 55 ELSE c - 48
Min2(a, b) == IF a < b THEN a ELSE b
\* value of the digits t[i..j-1]; anything above a million is "too big"
Num(t, i, j, base, acc) ==
  IF i >= j THEN acc ELSE Num(t, i + 1, j, base, Min2(acc * base + DigVal(t[i]), 1000000))

Cls(c) == CASE c \in {100, 68} -> Dig
            [] c \in {115, 83} -> White
            [] OTHER -> {95} \cup Dig \cup Upp \cup Low      \* w W

\* The escape whose backslash is at i - 1: [ok, i, cls, s] (s a set) with i
\* the next position, cls whether it is a class.
Escape(t, i) ==
  LET c == At(t, i)
      one(x, n) == [ok |-> TRUE, i |-> n, cls |-> FALSE, s |-> {x}]
  IN CASE c = -1 -> Fail
       [] c \in {100, 115, 119} -> [ok |-> TRUE, i |-> i + 1, cls |-> TRUE, s |-> Cls(c)]
       [] c \in {68, 83, 87} -> [ok |-> TRUE, i |-> i + 1, cls |-> TRUE, s |-> All \ Cls(c)]
       [] c \in Oct -> LET j == Min2(NumEnd(t, i, Oct), i + 3)
                           v == Num(t, i, j, 8, 0)
                       IN IF v > 255 THEN Fail ELSE one(v, j)
       [] c = 97 -> one(7, i + 1)
       [] c = 98 -> one(8, i + 1)
       [] c = 99 -> LET d == At(t, i + 1)
                    IN CASE d \in Low -> one(d - 96, i + 2)
                         [] d \in Upp -> one(d - 64, i + 2)
                         [] d = 64 -> one(0, i + 2)
                         [] OTHER -> Fail
       [] c = 101 -> one(27, i + 1)
       [] c = 102 -> one(12, i + 1)
       [] c = 110 -> one(10, i + 1)
       [] c = 114 -> one(13, i + 1)
       [] c = 116 -> one(9, i + 1)
       [] c = 118 -> one(11, i + 1)
       [] c = 120 -> LET j == NumEnd(t, i + 1, Hex)
                         v == Num(t, i + 1, j, 16, 0)
                     IN IF j = i + 1 \/ v > 255 THEN Fail ELSE one(v, j)
       [] c \in {112, 80} -> Fail                      \* \p: module CharSet
       [] OTHER -> one(c, i + 1)

\* --------------------------------------------------------- bracketed sets
Posix ==
  << << <<97,108,110,117,109>>, Low \cup Upp \cup Dig >>, << <<97,108,112,104,97>>, Low \cup Upp >>,
     << <<98,108,97,110,107>>, {32, 9} >>, << <<99,110,116,114,108>>, (0..31) \cup {127} >>,
     << <<100,105,103,105,116>>, Dig >>, << <<103,114,97,112,104>>, 33..126 >>,
     << <<108,111,119,101,114>>, Low >>, << <<112,114,105,110,116>>, 32..126 >>,
     << <<112,117,110,99,116>>, (33..126) \ (Low \cup Upp \cup Dig) >>, << <<115,112,97,99,101>>, White >>,
     << <<117,112,112,101,114>>, Upp >>, << <<120,100,105,103,105,116>>, Hex >> >>

\* [:name:] with the colon at i: [ok, i, s]
PosixAt(t, i, fl) ==
  LET neg == At(t, i + 1) = 94
      b == IF neg THEN i + 2 ELSE i + 1
      fits(k) == LET n == Posix[k][1] IN
                 /\ b + Len(n) + 1 <= Len(t)
                 /\ SubSeq(t, b, b + Len(n) - 1) = n
                 /\ t[b + Len(n)] = 58 /\ t[b + Len(n) + 1] = 93
      S == {k \in 1..Len(Posix) : fits(k)}
  IN IF S = {} THEN Fail
     ELSE LET k == CHOOSE k \in S : TRUE
              P == Cased(Posix[k][2], fl)
          IN [ok |-> TRUE, i |-> b + Len(Posix[k][1]) + 2, s |-> IF neg THEN All \ P ELSE P]

\* One end of a range or a member: [ok, i, cls, s]
BrItem(t, i, fl) ==
  CASE At(t, i) = -1 -> Fail
    [] At(t, i) = 92 -> Escape(t, i + 1)
    [] At(t, i) = 91 /\ At(t, i + 1) = 58 ->
         LET p == PosixAt(t, i + 1, fl)
         IN IF p.ok THEN [ok |-> TRUE, i |-> p.i, cls |-> TRUE, s |-> p.s] ELSE Fail
    [] OTHER -> [ok |-> TRUE, i |-> i + 1, cls |-> FALSE, s |-> {t[i]}]

TheOne(S) == CHOOSE x \in S : TRUE

\* Members from i on, acc what is there already; the closing bracket ends
\* the set except as the first member.
RECURSIVE BrMore(_, _, _, _, _)
BrMore(t, i, fl, acc, first) ==
  IF At(t, i) = -1 THEN Fail
  ELSE IF t[i] = 93 /\ ~first THEN [ok |-> TRUE, i |-> i + 1, s |-> acc]
  ELSE LET m == BrItem(t, i, fl)
       IN IF ~m.ok THEN Fail
          ELSE IF At(t, m.i) = 45 /\ At(t, m.i + 1) # 93
          THEN LET h == BrItem(t, m.i + 1, fl)
               IN IF m.cls \/ ~h.ok \/ (h.ok /\ h.cls) THEN Fail
                  ELSE IF TheOne(h.s) < TheOne(m.s) THEN Fail
                  ELSE BrMore(t, h.i, fl, acc \cup Cased(TheOne(m.s)..TheOne(h.s), fl), FALSE)
          ELSE BrMore(t, m.i, fl, acc \cup (IF m.cls THEN m.s ELSE Cased(m.s, fl)), FALSE)

\* The set whose opening bracket is at i - 1.
Bracket(t, i, fl) ==
  LET neg == At(t, i) = 94
      b == BrMore(t, IF neg THEN i + 1 ELSE i, fl, {}, TRUE)
  IN IF ~b.ok THEN Fail
     ELSE LET S == IF neg THEN All \ b.s ELSE b.s
          IN IF S = {} THEN Fail ELSE [ok |-> TRUE, i |-> b.i, s |-> S]

\* ------------------------------------------------------------ (?...: options
RECURSIVE Options(_, _, _, _), Comment(_, _, _), CComment(_, _), Blank(_, _, _, _)
Options(t, i, fl, neg) ==
  LET c == At(t, i)
  IN CASE c = 58 -> [ok |-> TRUE, i |-> i + 1, fl |-> fl]
       [] c = 45 -> Options(t, i + 1, fl, ~neg)
       [] c = 105 -> Options(t, i + 1, [fl EXCEPT !.i = ~neg], FALSE)
       [] c = 115 -> Options(t, i + 1, [fl EXCEPT !.dot = IF neg THEN 1 ELSE 0], FALSE)
       [] c = 120 -> Options(t, i + 1, [fl EXCEPT !.x = ~neg], FALSE)
       [] OTHER -> Fail
\* position after the comment (?#...) with n parentheses open at i; 0: none
Comment(t, i, n) ==
  CASE At(t, i) = -1 -> 0
    [] t[i] = 40 -> Comment(t, i + 1, n + 1)
    [] t[i] = 41 -> IF n = 1 THEN i + 1 ELSE Comment(t, i + 1, n - 1)
    [] OTHER -> Comment(t, i + 1, n)
CComment(t, i) ==
  IF i + 1 > Len(t) THEN 0
  ELSE IF t[i] = 42 /\ t[i + 1] = 47 THEN i + 2 ELSE CComment(t, i + 1)
\* What separates tokens: quotes (they change q), comments, free spacing.
\* [ok, i, q]
Blank(t, i, q, fl) ==
  CASE At(t, i) = 34 -> Blank(t, i + 1, ~q, fl)
    [] ~q /\ At(t, i) = 40 /\ At(t, i + 1) = 63 /\ At(t, i + 2) = 35 ->
         LET j == Comment(t, i + 3, 1) IN IF j = 0 THEN Fail ELSE Blank(t, j, q, fl)
    [] ~q /\ fl.x /\ At(t, i) \in White -> Blank(t, i + 1, q, fl)
    [] ~q /\ fl.x /\ At(t, i) = 47 /\ At(t, i + 1) = 42 ->
         LET j == CComment(t, i + 2) IN IF j = 0 THEN Fail ELSE Blank(t, j, q, fl)
    [] OTHER -> [ok |-> TRUE, i |-> i, q |-> q]

\* {n} {n,} {n,m}, the first digit at i: [ok, i, lo, hi]
Repeat(t, i) ==
  LET a == NumEnd(t, i, Dig)
      lo == Num(t, i, a, 10, 0)
      b == NumEnd(t, a + 1, Dig)
      hi == Num(t, a + 1, b, 10, 0)
  IN CASE At(t, a) = 125 -> IF lo = 0 THEN Fail ELSE [ok |-> TRUE, i |-> a + 1, lo |-> lo, hi |-> lo]
       [] At(t, a) = 44 /\ At(t, a + 1) = 125 -> [ok |-> TRUE, i |-> a + 2, lo |-> lo, hi |-> -1]
       [] At(t, a) = 44 /\ b > a + 1 /\ At(t, b) = 125 ->
            IF hi = 0 \/ hi < lo THEN Fail ELSE [ok |-> TRUE, i |-> b + 1, lo |-> lo, hi |-> hi]
       [] OTHER -> Fail

\* ---------------------------------------------------------------- scanning
Tok(t) == [t |-> t]
Atom(S) == [t |-> "cs", s |-> S]
Rep(lo, hi, z) == [t |-> "rep", lo |-> lo, hi |-> hi, z |-> z]

\* May token b follow token a?  ("begin" and "end" delimit.)  Sequences are
\* not empty, an item has at most one repeat, an anchor none.
Starters == {"cs", "op", "bol", "eol"}
Follows(a, b) ==
  CASE b \in Starters -> TRUE
    [] b = "rep" -> a \in {"cs", "cl", "eol"}
    [] OTHER -> a \notin {"begin", "or", "op"}                    \* or cl end
LastOf(tk) == IF tk = <<>> THEN "begin" ELSE tk[Len(tk)].t

\* The macro body between parentheses unless it is a single set or anchor.
\* One whose text begins with ^ / ends with $ keeps that meaning (and is
\* then not parenthesised) at the very beginning / end of an expression, and
\* means the character elsewhere.
Expand(m, tk, atEnd) ==
  LET n == Len(m)
      hasB == n > 0 /\ m[1].t = "bol"
      hasE == n > 0 /\ m[n].t = "eol"
      bol == tk = <<>> /\ hasB
      eol == atEnd /\ hasE
      b1 == IF hasB /\ ~bol /\ n >= 1 THEN [m EXCEPT ![1] = Atom({94})] ELSE m
      b2 == IF hasE /\ ~eol THEN [b1 EXCEPT ![n] = Atom({36})] ELSE b1
  IN IF n > 1 /\ ~bol /\ ~eol THEN <<Tok("op")>> \o b2 \o <<Tok("cl")>> ELSE b2

\* z: i position, q in quotes, fl, fs stack of flags, n open parentheses, tk
\* tokens, df pending set operator (0, 43 or 45), one: the last token may be
\* the left side of a set operator
RECURSIVE Scan(_, _, _)
Put(t, z, mac, tok, i) ==    \* the next token is tok, and ends before i
  IF z.df # 0
  THEN IF tok.t # "cs" THEN Fail
       ELSE LET l == z.tk[Len(z.tk)]
                S == IF z.df = 43 THEN l.s \cup tok.s ELSE l.s \ tok.s
            IN IF S = {} THEN Fail
               ELSE Scan(t, [z EXCEPT !.i = i, !.df = 0, !.one = TRUE, !.tk[Len(z.tk)] = Atom(S)], mac)
  ELSE IF ~Follows(LastOf(z.tk), tok.t) THEN Fail
  ELSE Scan(t, [z EXCEPT !.i = i, !.one = TRUE, !.tk = Append(z.tk, tok)], mac)

Curly(t, z, mac, i) ==       \* the brace is at i - 1
  CASE At(t, i) \in {43, 45} ->
         IF LastOf(z.tk) = "cs" /\ z.one /\ z.df = 0 /\ At(t, i + 1) = 125
         THEN Scan(t, [z EXCEPT !.i = i + 2, !.df = t[i]], mac) ELSE Fail
    [] At(t, i) \in Dig ->
         LET r == Repeat(t, i)
             lz == r.ok /\ At(t, r.i) = 63
         IN IF ~r.ok THEN Fail
            ELSE Put(t, z, mac, Rep(r.lo, r.hi, IF lz THEN 1 ELSE 0), IF lz THEN r.i + 1 ELSE r.i)
    [] At(t, i) \in NameStart ->
         LET j == NumEnd(t, i, NameChar)
             nm == SubSeq(t, i, j - 1)
         IN IF At(t, j) # 125 \/ nm \notin DOMAIN mac THEN Fail
            ELSE LET m == mac[nm]
                     x == Expand(m, z.tk, j = Len(t))
                 IN IF z.df # 0
                    THEN IF Len(m) = 1 THEN Put(t, z, mac, m[1], j + 1) ELSE Fail
                    ELSE Scan(t, [z EXCEPT !.i = j + 1, !.tk = z.tk \o x,
                                           !.one = Len(m) = 1 \/ Len(m) = 0], mac)
    [] OTHER -> Fail

Scan(t, z0, mac) ==
  LET k == Blank(t, z0.i, z0.q, z0.fl)
  IN IF ~k.ok THEN Fail
     ELSE
  LET z == [z0 EXCEPT !.i = k.i, !.q = k.q]
      c == At(t, z.i)
      n == z.i + 1
      lazy == At(t, n) = 63
      rep(lo, hi) == Put(t, z, mac, Rep(lo, hi, IF lazy THEN 1 ELSE 0), IF lazy THEN n + 1 ELSE n)
      lit(S) == Put(t, z, mac, Atom(S), n)
  IN CASE c = -1 -> IF z.q \/ z.n > 0 \/ z.df # 0 \/ (z.tk # <<>> /\ ~Follows(LastOf(z.tk), "end"))
                    THEN Fail ELSE [ok |-> TRUE, toks |-> z.tk]
       [] c = 92 -> LET e == Escape(t, n)
                    IN IF ~e.ok THEN Fail
                       ELSE Put(t, z, mac, Atom(IF e.cls THEN e.s ELSE Cased(e.s, z.fl)), e.i)
       [] z.q -> lit(Cased({c}, z.fl))
       [] c = 40 -> LET o == Options(t, n + 1, z.fl, FALSE)
                    IN IF z.df # 0 THEN Fail
                       ELSE IF At(t, n) = 63
                       THEN IF o.ok THEN Put(t, [z EXCEPT !.fl = o.fl, !.fs = Append(z.fs, z.fl), !.n = z.n + 1],
                                             mac, Tok("op"), o.i)
                            ELSE Fail
                       ELSE Put(t, [z EXCEPT !.fs = Append(z.fs, z.fl), !.n = z.n + 1], mac, Tok("op"), n)
       [] c = 41 -> IF z.n = 0 THEN Fail
                    ELSE Put(t, [z EXCEPT !.fl = z.fs[Len(z.fs)], !.fs = SubSeq(z.fs, 1, Len(z.fs) - 1),
                                          !.n = z.n - 1], mac, Tok("cl"), n)
       [] c = 63 -> rep(0, 1)
       [] c = 42 -> rep(0, -1)
       [] c = 43 -> rep(1, -1)
       [] c = 123 -> Curly(t, z, mac, n)
       [] c = 124 -> Put(t, z, mac, Tok("or"), n)
       [] c = 94 -> IF z.i = 1 THEN Put(t, z, mac, Tok("bol"), n) ELSE lit({94})
       [] c = 36 -> IF z.i = Len(t) THEN Put(t, z, mac, Tok("eol"), n) ELSE lit({36})
       [] c = 46 -> lit(CASE z.fl.dot = 0 -> All [] z.fl.dot = 1 -> All \ {LF} [] OTHER -> All \ {LF, CR})
       [] c = 91 -> LET b == Bracket(t, n, z.fl)
                    IN IF b.ok THEN Put(t, z, mac, Atom(b.s), b.i) ELSE Fail
       [] c = 47 -> Fail                              \* no trailing context
       [] OTHER -> lit(Cased({c}, z.fl))

\* ------------------------------------------------------------------ parsing
\* position of the parenthesis closing the one open at nesting n
RECURSIVE Close(_, _, _), Unwrap(_), Split(_, _, _, _), SeqTree(_, _, _)
Close(k, i, n) ==
  IF i > Len(k) THEN 0
  ELSE CASE k[i].t = "op" -> Close(k, i + 1, n + 1)
         [] k[i].t = "cl" -> IF n = 1 THEN i ELSE Close(k, i + 1, n - 1)
         [] OTHER -> Close(k, i + 1, n)
\* outer parentheses mean nothing
Unwrap(k) == IF Len(k) >= 2 /\ k[1].t = "op" /\ Close(k, 2, 1) = Len(k)
             THEN Unwrap(SubSeq(k, 2, Len(k) - 1)) ELSE k

\* Read: the tokens of the whole text
Read(t, fl, mac) ==
  LET r == Scan(t, [i |-> 1, q |-> FALSE, fl |-> fl, fs |-> <<>>, n |-> 0, tk |-> <<>>, df |-> 0, one |-> FALSE], mac)
  IN IF ~r.ok THEN Fail
     ELSE LET k == Unwrap(r.toks)
          IN IF k = <<>> /\ ~fl.zero THEN Fail ELSE [ok |-> TRUE, toks |-> k]

\* the alternatives at the outermost level
Split(k, i, n, b) ==         \* b: beginning of the current alternative
  IF i > Len(k) THEN <<SubSeq(k, b, Len(k))>>
  ELSE CASE k[i].t = "op" -> Split(k, i + 1, n + 1, b)
         [] k[i].t = "cl" -> Split(k, i + 1, n - 1, b)
         [] k[i].t = "or" /\ n = 0 -> <<SubSeq(k, b, i - 1)>> \o Split(k, i + 1, 0, i + 1)
         [] OTHER -> Split(k, i + 1, n, b)
Alts(k) == Split(k, 1, 0, 1)

Nd(toks) == <<toks>>
RECURSIVE Tree(_)
\* items of a sequence without anchors, as a sequence of expressions
SeqTree(k, i, acc) ==
  IF i > Len(k) THEN acc
  ELSE LET j == IF k[i].t = "op" THEN Close(k, i + 1, 1) ELSE i
           a == CASE k[i].t = "op" -> Tree(SubSeq(k, i + 1, j - 1))
                  [] OTHER -> [k |-> "cs", s |-> k[i].s]
           r == j < Len(k) /\ k[j + 1].t = "rep"
       IN IF k[i].t \in {"bol", "eol"} THEN SeqTree(k, i + 1, acc)
          ELSE SeqTree(k, IF r THEN j + 2 ELSE j + 1,
                       Append(acc, IF r THEN [k |-> "rep", n |-> a, lo |-> k[j + 1].lo, hi |-> k[j + 1].hi] ELSE a))
Tree(k) ==
  LET A == Alts(k)
  IN IF Len(A) = 1 THEN [k |-> "cat", a |-> SeqTree(k, 1, <<>>)]
     ELSE [k |-> "alt", a |-> [j \in 1..Len(A) |-> [k |-> "cat", a |-> SeqTree(A[j], 1, <<>>)]]]

IsLazy(k) == \E j \in 1..Len(k) : k[j].t = "rep" /\ k[j].z = 1
HasBol(k) == k # <<>> /\ k[1].t = "bol"
HasEol(k) == k # <<>> /\ k[Len(k)].t = "eol"

\* A rule is its alternatives, each [bol, eol, re].
RuleAlts(k) ==
  LET A == Alts(k)
  IN [j \in 1..Len(A) |-> [bol |-> IF HasBol(A[j]) THEN 1 ELSE 0, eol |-> IF HasEol(A[j]) THEN 1 ELSE 0,
                           re |-> [k |-> "cat", a |-> SeqTree(A[j], 1, <<>>)]]]
=============================================================================
