-------------------------------- MODULE Regex --------------------------------
(***************************************************************************)
(* What a regular expression of the documented syntax denotes.             *)
(*                                                                         *)
(* An expression is a syntax tree (records produced by the case            *)
(* generators, one constructor per construct of the documentation).  Its   *)
(* meaning is given denotationally: Ends(n, fl, mac, w, P) is the set of   *)
(* positions of the text w at which a match of n can end when it starts at *)
(* one of the positions in P.  Nothing here mentions parse tables, follow  *)
(* positions or automata: those are how the library implements it.         *)
(*                                                                         *)
(*  k = "chr"   c            one character                                 *)
(*      "str"   s            quoted string: the characters in sequence     *)
(*      "dot"                any character but newline (see flags)         *)
(*      "set"   neg, it      ranges <<lo, hi>>                             *)
(*      "cat"   a            concatenation of the expressions in a         *)
(*      "alt"   a            alternation                                   *)
(*      "rep"   n, lo, hi    lo..hi copies, hi = -1: no upper bound        *)
(*      "opt"   i, s, n      (?flags:n); -1 leave, 0 clear, 1 set          *)
(*      "mac"   m            macro reference                               *)
(*      "cs"    s            one character of the set s (module Syntax)    *)
(*  fl = [i |-> ignore case, dot |-> 0 all, 1 not LF, 2 not CR LF]         *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

LF == 10
CR == 13

Swap(c) == IF c >= 65 /\ c <= 90 THEN c + 32
           ELSE IF c >= 97 /\ c <= 122 THEN c - 32 ELSE c

InRanges(c, it) == \E k \in 1..Len(it) : it[k][1] <= c /\ c <= it[k][2]

ChrOK(c, x, fl) == x = c \/ (fl.i /\ Swap(c) = x)

DotOK(x, fl) == CASE fl.dot = 0 -> TRUE
                  [] fl.dot = 1 -> x # LF
                  [] OTHER -> x # LF /\ x # CR

SetOK(n, x, fl) == (InRanges(x, n.it) \/ (fl.i /\ InRanges(Swap(x), n.it)))
                      # (n.neg = 1)

Flag(cur, f) == CASE f = -1 -> cur [] f = 0 -> FALSE [] OTHER -> TRUE

OptFlags(fl, n) ==
  [i   |-> Flag(fl.i, n.i),
   dot |-> CASE n.s = -1 -> fl.dot [] n.s = 0 -> 1 [] OTHER -> 0]

RECURSIVE Ends(_, _, _, _, _), EndsSeq(_, _, _, _, _, _), Closure(_, _, _, _, _, _),
          Power(_, _, _, _, _, _), UpTo(_, _, _, _, _, _, _), StrEnds(_, _, _, _, _)

StrEnds(s, k, fl, w, P) ==
  IF k > Len(s) \/ P = {} THEN P
  ELSE StrEnds(s, k + 1, fl, w, {p + 1 : p \in {q \in P : q < Len(w) /\ ChrOK(s[k], w[q + 1], fl)}})

EndsSeq(a, k, fl, mac, w, P) ==
  IF k > Len(a) \/ P = {} THEN P
  ELSE EndsSeq(a, k + 1, fl, mac, w, Ends(a[k], fl, mac, w, P))

\* Least set containing acc and closed under one more copy of n.
Closure(n, fl, mac, w, new, acc) ==
  IF new = {} THEN acc
  ELSE LET nx == Ends(n, fl, mac, w, new) \ acc
       IN Closure(n, fl, mac, w, nx, acc \cup nx)

Power(n, fl, mac, w, P, k) ==
  IF k = 0 \/ P = {} THEN P ELSE Power(n, fl, mac, w, Ends(n, fl, mac, w, P), k - 1)

\* Zero to k more copies.
UpTo(n, fl, mac, w, P, acc, k) ==
  IF k = 0 \/ P = {} THEN acc
  ELSE LET nx == Ends(n, fl, mac, w, P) IN UpTo(n, fl, mac, w, nx, acc \cup nx, k - 1)

Ends(n, fl, mac, w, P) ==
  CASE n.k = "chr" -> {p + 1 : p \in {q \in P : q < Len(w) /\ ChrOK(n.c, w[q + 1], fl)}}
    [] n.k = "dot" -> {p + 1 : p \in {q \in P : q < Len(w) /\ DotOK(w[q + 1], fl)}}
    [] n.k = "set" -> {p + 1 : p \in {q \in P : q < Len(w) /\ SetOK(n, w[q + 1], fl)}}
    [] n.k = "cs"  -> {p + 1 : p \in {q \in P : q < Len(w) /\ w[q + 1] \in n.s}}
    [] n.k = "str" -> StrEnds(n.s, 1, fl, w, P)
    [] n.k = "cat" -> EndsSeq(n.a, 1, fl, mac, w, P)
    [] n.k = "alt" -> UNION {Ends(n.a[j], fl, mac, w, P) : j \in 1..Len(n.a)}
    [] n.k = "rep" -> LET Q == Power(n.n, fl, mac, w, P, n.lo)
                      IN IF n.hi = -1 THEN Closure(n.n, fl, mac, w, Q, Q)
                         ELSE UpTo(n.n, fl, mac, w, Q, Q, n.hi - n.lo)
    [] n.k = "opt" -> Ends(n.n, OptFlags(fl, n), mac, w, P)
    \* A macro stands for the expression it was defined with, under the
    \* options in force when it was defined.
    [] n.k = "mac" -> Ends(mac[n.m].n, mac[n.m].fl, mac, w, P)

\* The expression for the reversed texts.
RECURSIVE Rev(_)
RevSeq(s) == [k \in 1..Len(s) |-> s[Len(s) + 1 - k]]
Rev(n) ==
  CASE n.k = "str" -> [n EXCEPT !.s = RevSeq(n.s)]
    [] n.k = "cat" -> [n EXCEPT !.a = RevSeq([j \in 1..Len(n.a) |-> Rev(n.a[j])])]
    [] n.k = "alt" -> [n EXCEPT !.a = [j \in 1..Len(n.a) |-> Rev(n.a[j])]]
    [] n.k \in {"rep", "opt"} -> [n EXCEPT !.n = Rev(n.n)]
    [] OTHER -> n      \* chr, dot, set; macros are reversed at their definition

Nullable(n, fl, mac) == 0 \in Ends(n, fl, mac, <<>>, {0})
=============================================================================
