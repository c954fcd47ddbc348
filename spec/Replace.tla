------------------------------- MODULE Replace -------------------------------
(***************************************************************************)
(* Search and replace: the lexer walks over the text; every token it       *)
(* reports (an unmatched character counts as one, as the documentation     *)
(* notes) is substituted, everything between tokens (skipped text) and     *)
(* after the last one is copied.                                           *)
(***************************************************************************)
EXTENDS Lexer

RECURSIVE Dec(_)
Dec(n) == IF n < 10 THEN <<48 + n>> ELSE Append(Dec(n \div 10), 48 + (n % 10))

\* What a replacement function given with number k makes of a token's text.
Fn(k, s) == CASE k = 0 -> <<>>
              [] k = 1 -> <<35>> \o Dec(Len(s))
              [] k = 2 -> <<60>> \o Dec(IF s = <<>> THEN 0 ELSE s[1]) \o <<62>>
              [] OTHER -> <<102, 110>>

\* f is a replacement description:
\*   k = "str": every token becomes f.s
\*   k = "map": tokens become the text listed for their id, others stay
\*   k = "fun": tokens become what the function listed for their id makes
Listed(f, id) == \E j \in 1..Len(f.m) : f.m[j][1] = id
Pick(f, id) == f.m[CHOOSE j \in 1..Len(f.m) : f.m[j][1] = id][2]
Subst(f, id, s) ==
  CASE f.k = "str" -> f.s
    [] f.k = "map" -> IF Listed(f, id) THEN Pick(f, id) ELSE s
    [] f.k = "fun" -> IF Listed(f, id) THEN Fn(Pick(f, id), s) ELSE s

\* One step of replacing: what report `rep` adds to the output when the text
\* up to `done` has been dealt with.
Adds(w, f, rep, done) ==
  IF rep.id = EOI THEN SubSeq(w, done + 1, Len(w))
  ELSE SubSeq(w, done + 1, rep.f) \o Subst(f, rep.id, SubSeq(w, rep.f + 1, rep.s))
=============================================================================
