------------------------------- MODULE LexTrace -------------------------------
(***************************************************************************)
(* Trace validation.  Every case is a lexer description plus texts; the    *)
(* harness ran the real library on it and recorded every report.  The      *)
(* specification (module Lexer) takes one step per recorded report; a      *)
(* recorded report that is not the one the specification makes from its    *)
(* current configuration violates Conforms.  The other invariants are the  *)
(* properties themselves, evaluated on the recorded reports at every step. *)
(***************************************************************************)
EXTENDS Lexer, TLC, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.CASES)
Obs   == ndJsonDeserialize(IOEnv.OBS)

VARIABLES c,     \* case
          t,     \* text of the case
          i,     \* reports consumed
          cfg,   \* configuration of the specification
          last,  \* last recorded report
          bad    \* "" or what the specification expected instead

vars == <<c, t, i, cfg, last, bad>>

Given == Cases[c].lex
L == IF "rev" \in DOMAIN Cases[c] /\ Cases[c].rev = 1 THEN RevLexer(Given) ELSE Given
W == Cases[c].in[t]
Trace == Obs[c].r[t]

None == <<-9, 0, 0, 0, 0, 0, <<>>>>

Init ==
  /\ c \in 1..Len(Cases)
  /\ t \in (IF Obs[c].e = "" THEN 1..Len(Cases[c].in) ELSE {0})
  /\ i = 0
  /\ cfg = Config(0, 0, <<>>)
  /\ last = None
  /\ bad = IF Cases[c].fail = "" /\ Obs[c].e # "" THEN "build failed"
           ELSE IF Cases[c].fail # "" /\ Obs[c].e = "" THEN "build succeeded" ELSE ""

Shown(rep) == IF rep.id = -1 THEN <<-1, 0, 0, 0, 0, 0, <<>>>>
              ELSE <<rep.id, rep.uid, rep.f, rep.s, rep.c.st,
                     IF ReportBol(W, rep) THEN 1 ELSE 0, rep.c.stk>>

Step ==
  /\ bad = ""
  /\ t > 0
  /\ i < Len(Trace)
  /\ LET rep == NextReport(L, W, cfg)
         obs == Trace[i + 1]
     IN /\ last' = obs
        /\ i' = i + 1
        /\ cfg' = rep.c
        /\ bad' = IF obs # Shown(rep) THEN "expected " \o ToString(Shown(rep)) \o " recorded " \o ToString(obs)
                  ELSE IF Final(W, rep) # (i + 1 = Len(Trace)) THEN "end of lexing misplaced"
                  ELSE ""
  /\ UNCHANGED <<c, t>>

Spec == Init /\ [][Step]_vars

Conforms == bad = ""

\* --- the properties, read directly off the recorded reports ---------------
Live == i > 0 /\ last[1] >= 0 /\ bad = ""
\* a report lies inside the text, never goes backwards, and ends where the
\* specification's configuration stands
InText == Live => 0 <= last[3] /\ last[3] <= last[4] /\ last[4] <= Len(W)
Position == Live => last[4] = cfg.pos
\* progress: at most one report per character, plus the end
Progress == i <= Len(W) + 1
\* unmatched reports are exactly one character
OneChar == (Live /\ last[1] = NPOS) => last[4] = last[3] + 1
\* skip ids are never reported
NoSkip == Live => last[1] # SKIP
=============================================================================
