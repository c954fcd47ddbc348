----------------------------- MODULE LocaleTrace -----------------------------
(***************************************************************************)
(* A rules object over 8-bit characters has a locale: the global one when  *)
(* it is made and after clear(), another one from imbue() on.  The locale  *)
(* says which characters are letters, capitals and small letters, and      *)
(* under ignore-case what the other case of a character is.  A rule keeps  *)
(* the locale it was pushed under, a macro the one it was defined under.   *)
(*                                                                         *)
(* A case: g the global locale (0 "C"), calls a sequence of                *)
(*   imbue l, flags i dot, macro m e, push id e, clear                     *)
(* r[k]: what call k gave (imbue: the locale there was before; others: 1   *)
(* done, 0 refused) and the locale after it; obs[x + 1]: the id reported   *)
(* after character x by the lexer of the final rules, 0 none.              *)
(***************************************************************************)
EXTENDS CharSet, SequencesExt

Cases == ndJsonDeserialize(IOEnv.CASES)
Obs == ndJsonDeserialize(IOEnv.OBS)

VARIABLES c,      \* the case
          k,      \* calls made
          loc,    \* current locale
          opt,    \* current options
          mac,    \* macros: sequence of [m, e]
          rul,    \* rules: sequence of [id, e]
          bad
vars == <<c, k, loc, opt, mac, rul, bad>>

Here == [i |-> opt.i, dot |-> opt.dot, wide |-> FALSE, l |-> loc]

\* an expression with its macros replaced by what they stand for
RECURSIVE Bind(_)
Bind(e) ==
  CASE e.k = "mac" -> LET j == CHOOSE j \in 1..Len(mac) : mac[j].m = e.m IN mac[j].e
    [] e.k \in {"dif", "uni"} -> [k |-> e.k, a |-> Bind(e.a), b |-> Bind(e.b)]
    [] OTHER -> e

\* some part of it has no characters, and so it is refused
RECURSIVE Empty(_, _)
Empty(e, f) ==
  \/ e.k # "bound" /\ \A x \in 0..255 : ~In(e, x, f)
  \/ e.k \in {"dif", "uni"} /\ (Empty(e.a, f) \/ Empty(e.b, f))

First(x) == LET S == {j \in 1..Len(rul) : In(rul[j].e.e, x, rul[j].e.f)}
            IN IF S = {} THEN 0 ELSE rul[CHOOSE j \in S : \A i \in S : j <= i].id

Init ==
  /\ c \in 1..Len(Cases)
  /\ k = 0 /\ loc = Cases[c].g /\ opt = [i |-> 0, dot |-> 1] /\ mac = <<>> /\ rul = <<>> /\ bad = ""

Call ==
  LET a == Cases[c].calls[k + 1]
      o == Obs[c].r[k + 1]
      b == IF a.o \in {"push", "macro"} THEN [k |-> "bound", e |-> Bind(a.e), f |-> Here] ELSE [k |-> "none"]
      no == a.o \in {"push", "macro"} /\ Empty(b.e, Here)
      want == CASE a.o = "imbue" -> loc [] no -> 0 [] OTHER -> 1
      to == CASE a.o = "imbue" -> a.l [] a.o = "clear" -> Cases[c].g [] OTHER -> loc
  IN /\ k < Len(Cases[c].calls) /\ bad = ""
     /\ k' = k + 1 /\ c' = c
     /\ loc' = to
     /\ opt' = IF a.o = "flags" THEN [i |-> a.i, dot |-> a.dot] ELSE IF a.o = "clear" THEN [i |-> 0, dot |-> 1] ELSE opt
     /\ mac' = IF a.o = "clear" THEN <<>> ELSE IF a.o = "macro" /\ ~no THEN Append(mac, [m |-> a.m, e |-> b]) ELSE mac
     /\ rul' = IF a.o = "clear" THEN <<>> ELSE IF a.o = "push" /\ ~no THEN Append(rul, [id |-> a.id, e |-> b]) ELSE rul
     /\ bad' = IF o = <<want, to>> THEN ""
               ELSE "call " \o ToString(k + 1) \o ": expected " \o ToString(<<want, to>>) \o " recorded " \o ToString(o)

Look ==
  /\ k = Len(Cases[c].calls) /\ bad = ""
  /\ k' = k + 1
  /\ bad' = LET D == {x \in 0..255 : First(x) # Obs[c].obs[x + 1]}
            IN IF rul = <<>> \/ D = {} THEN ""
               ELSE "<<character, expected, reported>> " \o ToString({<<x, First(x), Obs[c].obs[x + 1]>> : x \in D})
  /\ UNCHANGED <<c, loc, opt, mac, rul>>

Next == Call \/ Look
Spec == Init /\ [][Next]_vars

Conforms == bad = ""
=============================================================================
