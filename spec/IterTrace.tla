------------------------------ MODULE IterTrace ------------------------------
(***************************************************************************)
(* Trace validation: a schedule of operations on iterators and results     *)
(* objects, replayed on the real ones; after every operation all slots     *)
(* were recorded, and which iterators compare equal.                       *)
(***************************************************************************)
EXTENDS Iterators, TLC, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.CASES)
Obs   == ndJsonDeserialize(IOEnv.OBS)

VARIABLES c, n, sl, bad
vars == <<c, n, sl, bad>>

Slots == 1..4
Lx == Cases[c].lx
Ws == Cases[c].in

Init == /\ c \in 1..Len(Cases) /\ n = 0
        /\ sl = [s \in Slots |-> Null]
        /\ bad = IF Obs[c].e # "" THEN "build failed" ELSE ""

\* what a slot shows: kind, machine (iterators), text, id, user id, first,
\* second, start state, stack, the token's text, and that text without its
\* first and last character
Shown(s) ==
  IF s.k = "end" THEN <<0>>
  ELSE LET w == Ws[s.w]
           tok == SubSeq(w, s.rep.f + 1, s.rep.s)
       IN <<IF s.k = "it" THEN 1 ELSE 2, IF s.k = "it" THEN s.m ELSE 0, s.w, s.rep.id, s.rep.uid, s.rep.f, s.rep.s,
            s.rep.c.st, s.rep.c.stk, tok, IF Len(tok) < 2 THEN <<>> ELSE SubSeq(tok, 2, Len(tok) - 1)>>
\* results objects of equal standing are not compared (they do not know their machine)
Equal == {<<a, b>> \in Slots \X Slots : a < b /\ sl'[a].k # "rs" /\ sl'[b].k # "rs" /\ Eq(sl'[a], sl'[b])}

Step ==
  /\ bad = "" /\ n < Len(Cases[c].ops)
  /\ LET o == Cases[c].ops[n + 1]
         ob == Obs[c].r[n + 1]
         shown == [s \in Slots |-> Shown(sl'[s])]
         eq == {<<ob.eq[j][1], ob.eq[j][2]>> : j \in 1..Len(ob.eq)}
     IN /\ sl' = IF Enabled(sl, o) THEN Apply(Lx, Ws, sl, o) ELSE sl
        /\ bad' = IF ob.s # shown THEN "expected " \o ToString(shown) \o " recorded " \o ToString(ob.s)
                  ELSE IF eq # Equal THEN "equal are " \o ToString(Equal) \o " recorded " \o ToString(eq)
                  ELSE ""
  /\ n' = n + 1
  /\ UNCHANGED c

Spec == Init /\ [][Step]_vars
Conforms == bad = ""
=============================================================================
