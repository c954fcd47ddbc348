------------------------------ MODULE Iterators ------------------------------
(***************************************************************************)
(* Lexers in use at the same time: iterators and result objects over       *)
(* shared machines.  Every slot holds one of them; its whole state is the  *)
(* machine, the text and the last report, nothing is shared.               *)
(*                                                                         *)
(* lx  : sequence of lexer descriptions,  ws : sequence of texts           *)
(* A slot is                                                               *)
(*   Null                     an end iterator / nothing                    *)
(*   [k |-> "it", m, w, rep]  an iterator: machine m, text w, last report  *)
(*   [k |-> "rs", m, w, rep]  a results object used with machine m; rep is *)
(*                            Fresh(..) before its first lookup            *)
(***************************************************************************)
EXTENDS Lexer

Null == [k |-> "end"]

\* what a results object shows before its first lookup
Fresh(p, st) == Report(EOI, NPOS, p, p, Config(p, st, <<>>))
Cleared(w) == Report(EOI, NPOS, Len(w), Len(w), Config(Len(w), 0, <<>>))

\* An iterator standing on report rep: a null one when the report starts at
\* the end of the text, nothing when the lexer failed.
It(m, w, ws, rep) == IF rep.id = -1 \/ rep.f = Len(ws[w]) THEN Null
                     ELSE [k |-> "it", m |-> m, w |-> w, rep |-> rep]

Advance(lx, ws, s) ==
  LET rep == NextReport(lx[s.m], ws[s.w], s.rep.c)
  IN IF s.k = "it" THEN It(s.m, s.w, ws, rep)
     ELSE IF rep.id = -1 THEN Null ELSE [s EXCEPT !.rep = rep]

\* the lexer reports an error (nothing to pop); it is given up then
Fails(lx, ws, s) == NextReport(lx[s.m], ws[s.w], s.rep.c).id = -1

\* Operations: <<name, slot, arguments>>.  Enabled(..) says which make sense.
Enabled(sl, o) ==
  CASE o[1] \in {"make", "res", "null"} -> TRUE
    [] o[1] \in {"copy", "assign", "swap"} -> o[2] # o[3]
    [] o[1] = "self" -> TRUE
    [] o[1] = "inc" -> sl[o[2]].k # "end"
    [] o[1] = "post" -> sl[o[2]].k = "it" /\ o[2] # o[3]
    [] o[1] \in {"reset", "clear"} -> sl[o[2]].k = "rs"

Apply(lx, ws, sl, o) ==
  LET a == o[2] IN
  CASE o[1] = "make"   -> \* iterator over text o[4] from position o[5] in start state o[6] of machine o[3]
         [sl EXCEPT ![a] = It(o[3], o[4], ws, NextReport(lx[o[3]], ws[o[4]], Config(o[5], o[6], <<>>)))]
    [] o[1] = "res"    -> [sl EXCEPT ![a] = [k |-> "rs", m |-> o[3], w |-> o[4], rep |-> Fresh(o[5], o[6])]]
    [] o[1] = "null"   -> [sl EXCEPT ![a] = Null]
    [] o[1] \in {"copy", "assign"} -> [sl EXCEPT ![o[3]] = sl[a]]
    [] o[1] = "swap"   -> [sl EXCEPT ![a] = sl[o[3]], ![o[3]] = sl[a]]
    [] o[1] = "self"   -> sl
    [] o[1] = "inc"    -> [sl EXCEPT ![a] = Advance(lx, ws, sl[a])]
    [] o[1] = "post"   -> IF Fails(lx, ws, sl[a]) THEN [sl EXCEPT ![a] = Null]
                          ELSE [sl EXCEPT ![o[3]] = sl[a], ![a] = Advance(lx, ws, sl[a])]
    [] o[1] = "reset"  -> [sl EXCEPT ![a] = [sl[a] EXCEPT !.w = o[3], !.rep = Fresh(0, 0)]]
    [] o[1] = "clear"  -> [sl EXCEPT ![a] = [sl[a] EXCEPT !.rep = Cleared(ws[sl[a].w])]]

\* Two iterators are equal when both are ends, or when they use the same
\* machine and everything that decides what they yield is the same.
Eq(a, b) == IF a.k = "end" \/ b.k = "end" THEN a.k = b.k
            ELSE a.m = b.m /\ a.w = b.w /\ a.rep = b.rep
=============================================================================
