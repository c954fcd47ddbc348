------------------------------ MODULE Features ------------------------------
(***************************************************************************)
(* What a results object has to provide for a lexer: a machine names the   *)
(* features its rules use, a results object (or a generated lexer) is made *)
(* for a set of features, and any set that includes the machine's works    *)
(* alike.  Only `advance' is a choice: with it an unmatched character is   *)
(* taken, without it the report is empty and stands before the character.  *)
(***************************************************************************)
EXTENDS Lexer

BOL == 1  EOL == 2  SKIPS == 4  AGAIN == 8  MULTI == 16  STACK == 32  ADVANCE == 64

\* bits of a lexer with nst start states
Needed(L, nst) ==
  LET Any(P(_)) == \E k \in 1..Len(L.rules) : P(L.rules[k])
      Bit(b, yes) == IF yes THEN b ELSE 0
  IN Bit(BOL, Any(LAMBDA r : r.bol = 1)) + Bit(EOL, Any(LAMBDA r : r.eol = 1))
     + Bit(SKIPS, Any(LAMBDA r : r.id = SKIP)) + Bit(AGAIN, Any(LAMBDA r : r.id = EOI))
     + Bit(MULTI, nst > 1) + Bit(STACK, Any(LAMBDA r : r.pop = 1 \/ r.push # -1))

Has(f, b) == (f \div b) % 2 = 1

\* a report as a results object made for the features f shows it
\* (the line anchor is kept up to date only when it is one of them)
ShownWith(w, rep, f) ==
  IF rep.id = -1 THEN <<-1, 0, 0, 0, 0, 0, <<>>>>
  ELSE <<rep.id, rep.uid, rep.f, IF rep.id = NPOS /\ ~Has(f, ADVANCE) THEN rep.f ELSE rep.s,
         IF Has(f, MULTI) THEN rep.c.st ELSE 0, IF Has(f, BOL) THEN IF ReportBol(w, rep) THEN 1 ELSE 0 ELSE -1,
         rep.c.stk>>
=============================================================================
