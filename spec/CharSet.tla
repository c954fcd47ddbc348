------------------------------- MODULE CharSet -------------------------------
(***************************************************************************)
(* Which characters a character-set expression stands for, over the whole  *)
(* alphabet of the lexer.                                                  *)
(*                                                                         *)
(* Expressions E                                                           *)
(*   chr c | dot | esc e (\d \D \s \S \w \W) | prop p (\p{p})              *)
(*   set [neg, it]      bracket expression, members:                       *)
(*        r lo hi | esc e | posix c neg | prop p                           *)
(*   dif a b, uni a b   a{-}b, a{+}b                                       *)
(*   bound e f          what a macro stands for, with its options          *)
(* Options f: i ignore case, dot, wide, l the locale (0: the "C" locale).  *)
(*                                                                         *)
(* Names are resolved in data/unicode.json (tools/mkunicode.py makes it    *)
(* from the Unicode character database files of the repository).           *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

Uni == JsonDeserialize(IOEnv.UNICODE)
\* locales: al, up, lo (characters that are letters, capitals, small), and
\* fr[x + 1]: the characters of which x is the other case
Locs == JsonDeserialize(IOEnv.LOCALES)

\* ------------------------------------------------- sorted tables of ranges
RECURSIVE Srch(_, _, _, _)
Srch(R, x, lo, hi) ==
  IF lo > hi THEN FALSE
  ELSE LET m == (lo + hi) \div 2
       IN IF x < R[m][1] THEN Srch(R, x, lo, m - 1)
          ELSE IF x > R[m][2] THEN Srch(R, x, m + 1, hi) ELSE TRUE
InTab(R, x) == Srch(R, x, 1, Len(R))

Cat(n, x) == InTab(Uni.cat[n], x)

\* ------------------------------------------------------------- case folding
\* inv: sorted sequence of <<x, y>>: y folds to x.  A lower-case letter folds
\* to its upper-case form, an upper-case letter to its lower-case form.
RECURSIVE Inv(_, _, _, _)
Inv(R, x, lo, hi) ==
  IF lo > hi THEN {}
  ELSE LET m == (lo + hi) \div 2
       IN IF R[m][1] < x THEN Inv(R, x, m + 1, hi)
          ELSE IF R[m][1] > x THEN Inv(R, x, lo, m - 1)
          ELSE Inv(R, x, lo, m - 1) \cup {R[m][2]} \cup Inv(R, x, m + 1, hi)
FoldsTo(f, x) ==
  IF f.l > 0 THEN {Locs[f.l].fr[x + 1][k] : k \in 1..Len(Locs[f.l].fr[x + 1])}
  ELSE IF f.wide THEN {y \in Inv(Uni.inv, x, 1, Len(Uni.inv)) : TRUE}
  ELSE IF x >= 65 /\ x <= 90 THEN {x + 32}
  ELSE IF x >= 97 /\ x <= 122 THEN {x - 32} ELSE {}

\* ---------------------------------------------------------- named classes
Esc(e, x) ==
  CASE e = "d" -> x >= 48 /\ x <= 57
    [] e = "s" -> x \in {32, 9, 10, 13, 12, 11}
    [] e = "w" -> x = 95 \/ (x >= 48 /\ x <= 57) \/ (x >= 65 /\ x <= 90) \/ (x >= 97 /\ x <= 122)

\* a Unicode category, block (In...) or script (Is...)
Prop(p, x) == CASE p.t = "cat" -> InTab(Uni.cat[p.n], x)
                [] p.t = "block" -> InTab(Uni.block[p.n], x)
                [] OTHER -> InTab(Uni.script[p.n], x)

Low(x) == x >= 97 /\ x <= 122
Upp(x) == x >= 65 /\ x <= 90
Dig(x) == x >= 48 /\ x <= 57
PosixN(n, x) ==   \* the "C" locale
  CASE n = "alpha"  -> Low(x) \/ Upp(x)
    [] n = "alnum"  -> Low(x) \/ Upp(x) \/ Dig(x)
    [] n = "blank"  -> x = 32 \/ x = 9
    [] n = "cntrl"  -> x <= 31 \/ x = 127
    [] n = "digit"  -> Dig(x)
    [] n = "graph"  -> x >= 33 /\ x <= 126
    [] n = "lower"  -> Low(x)
    [] n = "print"  -> x >= 32 /\ x <= 126
    [] n = "punct"  -> x >= 33 /\ x <= 126 /\ ~(Low(x) \/ Upp(x) \/ Dig(x))
    [] n = "space"  -> x = 32 \/ (x >= 9 /\ x <= 13)
    [] n = "upper"  -> Upp(x)
    [] n = "xdigit" -> Dig(x) \/ (x >= 65 /\ x <= 70) \/ (x >= 97 /\ x <= 102)
Assigned(x) == \E k \in {"L", "M", "N", "P", "S", "Z", "C"} : Cat(k, x)
PosixW(n, x) ==
  CASE n = "alpha"  -> Cat("Ll", x) \/ Cat("Lu", x)
    [] n = "alnum"  -> Cat("Ll", x) \/ Cat("Lu", x) \/ Cat("Nd", x)
    [] n = "blank"  -> Cat("Zs", x) \/ x = 9
    [] n = "cntrl"  -> Cat("Cc", x)
    [] n = "digit"  -> Cat("Nd", x)
    [] n = "graph"  -> ~Cat("Z", x) /\ ~Cat("C", x)
    [] n = "lower"  -> Cat("Ll", x)
    [] n = "print"  -> ~Cat("C", x)
    [] n = "punct"  -> Cat("P", x) \/ Cat("S", x)
    [] n = "space"  -> Cat("Z", x) \/ (x >= 9 /\ x <= 13)
    [] n = "upper"  -> Cat("Lu", x)
    [] n = "xdigit" -> Dig(x) \/ (x >= 65 /\ x <= 70) \/ (x >= 97 /\ x <= 102)

\* --------------------------------------------------------------- membership
\* under ignore-case a class also has what its members fold to; negation is
\* applied last
Fold(P(_), x, f) == P(x) \/ (f.i = 1 /\ \E y \in FoldsTo(f, x) : P(y))

EscF(e, x, f) ==
  LET lower == CASE e = "D" -> "d" [] e = "S" -> "s" [] e = "W" -> "w" [] OTHER -> e
      P(y) == Esc(lower, y)
  IN Fold(P, x, f) # (e \in {"D", "S", "W"})
PropF(p, x, f) == LET P(y) == Prop(p, y) IN Fold(P, x, f)
\* only letters depend on the locale
PosixL(n, x, L) == CASE n = "alpha" -> L.al[x + 1] = 1
                     [] n = "alnum" -> L.al[x + 1] = 1 \/ Dig(x)
                     [] n = "lower" -> L.lo[x + 1] = 1
                     [] n = "upper" -> L.up[x + 1] = 1
                     [] OTHER -> PosixN(n, x)
PosixF(n, x, f) ==
  LET P(y) == IF f.l > 0 THEN PosixL(n, y, Locs[f.l]) ELSE IF f.wide THEN PosixW(n, y) ELSE PosixN(n, y)
  IN Fold(P, x, f)

Member(m, x, f) ==
  CASE m.k = "r" -> LET P(y) == m.lo <= y /\ y <= m.hi IN Fold(P, x, f)
    [] m.k = "esc" -> EscF(m.e, x, f)
    [] m.k = "prop" -> PropF(m.p, x, f)
    [] m.k = "posix" -> PosixF(m.c, x, f) # (m.neg = 1)

RECURSIVE In(_, _, _)
In(e, x, f) ==
  CASE e.k = "chr" -> LET P(y) == y = e.c IN Fold(P, x, f)
    [] e.k = "dot" -> (f.dot = 0) \/ (f.dot = 1 /\ x # 10) \/ (f.dot = 2 /\ x # 10 /\ x # 13)
    [] e.k = "esc" -> EscF(e.e, x, f)
    [] e.k = "prop" -> PropF(e.p, x, f)
    [] e.k = "set" -> (\E k \in 1..Len(e.it) : Member(e.it[k], x, f)) # (e.neg = 1)
    [] e.k = "dif" -> In(e.a, x, f) /\ ~In(e.b, x, f)
    [] e.k = "uni" -> In(e.a, x, f) \/ In(e.b, x, f)
    [] e.k = "bound" -> In(e.e, x, e.f)
=============================================================================
