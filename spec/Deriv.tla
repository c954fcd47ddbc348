-------------------------------- MODULE Deriv --------------------------------
(***************************************************************************)
(* What is left to match of an expression after a character: its partial   *)
(* derivatives (Antimirov).  A remainder is a sequence of items, each an   *)
(* expression of module Regex with the options it is read under; the       *)
(* remainders of an expression are finitely many, so that walking them     *)
(* covers texts of every length.                                           *)
(***************************************************************************)
EXTENDS Regex

Item(n, fl) == [n |-> n, fl |-> fl]

RECURSIVE Null(_, _)
Null(n, mac) ==
  CASE n.k \in {"chr", "dot", "set", "cs"} -> FALSE
    [] n.k = "str" -> n.s = <<>>
    [] n.k = "cat" -> \A j \in 1..Len(n.a) : Null(n.a[j], mac)
    [] n.k = "alt" -> \E j \in 1..Len(n.a) : Null(n.a[j], mac)
    [] n.k = "rep" -> n.lo = 0 \/ Null(n.n, mac)
    [] n.k = "opt" -> Null(n.n, mac)
    [] n.k = "mac" -> Null(mac[n.m].n, mac)

NullSeq(t, mac) == \A j \in 1..Len(t) : Null(t[j].n, mac)

\* PD: what can be left of the sequence t of items after one character x.
RECURSIVE PD(_, _, _), D1(_, _, _, _, _), DCat(_, _, _, _, _, _)
PD(t, x, mac) ==
  IF t = <<>> THEN {}
  ELSE D1(t[1].n, t[1].fl, x, Tail(t), mac)
       \cup (IF Null(t[1].n, mac) THEN PD(Tail(t), x, mac) ELSE {})

\* a character matched within the items of a sequence, not after them
DCat(a, j, fl, x, t, mac) ==
  IF j > Len(a) THEN {}
  ELSE D1(a[j], fl, x, [i \in 1..Len(a) - j |-> Item(a[j + i], fl)] \o t, mac)
       \cup (IF Null(a[j], mac) THEN DCat(a, j + 1, fl, x, t, mac) ELSE {})

D1(n, fl, x, t, mac) ==
  CASE n.k = "chr" -> IF ChrOK(n.c, x, fl) THEN {t} ELSE {}
    [] n.k = "dot" -> IF DotOK(x, fl) THEN {t} ELSE {}
    [] n.k = "set" -> IF SetOK(n, x, fl) THEN {t} ELSE {}
    [] n.k = "cs"  -> IF x \in n.s THEN {t} ELSE {}
    [] n.k = "str" -> IF n.s = <<>> THEN {}
                      ELSE IF ~ChrOK(n.s[1], x, fl) THEN {}
                      ELSE IF Len(n.s) = 1 THEN {t}
                      ELSE {<<Item([k |-> "str", s |-> Tail(n.s)], fl)>> \o t}
    [] n.k = "cat" -> DCat(n.a, 1, fl, x, t, mac)
    [] n.k = "alt" -> UNION {D1(n.a[j], fl, x, t, mac) : j \in 1..Len(n.a)}
    [] n.k = "rep" ->
         IF n.hi = 0 THEN {}
         ELSE LET r == [k |-> "rep", n |-> n.n, lo |-> IF n.lo = 0 THEN 0 ELSE n.lo - 1,
                        hi |-> IF n.hi = -1 THEN -1 ELSE n.hi - 1]
              IN D1(n.n, fl, x, (IF r.hi = 0 THEN <<>> ELSE <<Item(r, fl)>>) \o t, mac)
    [] n.k = "opt" -> D1(n.n, OptFlags(fl, n), x, t, mac)
    [] n.k = "mac" -> D1(mac[n.m].n, mac[n.m].fl, x, t, mac)
=============================================================================
