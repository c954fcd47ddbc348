---------------------------- MODULE ReplaceTrace ----------------------------
(***************************************************************************)
(* Trace validation of replace(): the specification produces the output    *)
(* token by token; what every overload of the real library returned for    *)
(* that kind of replacement has to be that text, and the output position   *)
(* returned has to lie at its end.                                         *)
(***************************************************************************)
EXTENDS Replace, TLC, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.CASES)
Obs   == ndJsonDeserialize(IOEnv.OBS)

VARIABLES c, t, k, cfg, done, out, toks, bad

vars == <<c, t, k, cfg, done, out, toks, bad>>

Zero(w) == LET Z == {j \in 1..Len(w) : w[j] = 0} IN IF Z = {} THEN w ELSE SubSeq(w, 1, SetMin(Z) - 1)
\* kinds 1..3 take the whole text, 4..6 a text ended by the first NUL
W == IF k > 3 THEN Zero(Cases[c].in[t]) ELSE Cases[c].in[t]
F == Cases[c].f[((k - 1) % 3) + 1]

Init ==
  /\ c \in 1..Len(Cases)
  /\ t \in (IF Obs[c].e = "" THEN 1..Len(Cases[c].in) ELSE {0})
  /\ k \in (IF t = 0 THEN {0} ELSE 1..6)
  /\ cfg = Config(0, 0, <<>>)
  /\ done = 0 /\ out = <<>> /\ toks = 0
  /\ bad = IF Obs[c].e # "" THEN "build failed" ELSE ""

Wrong(o) == {j \in 1..Len(Obs[c].r[t][k]) : Obs[c].r[t][k][j][2] # o \/ Obs[c].r[t][k][j][3] # Len(o)}

Step ==
  /\ bad = "" /\ t > 0 /\ done >= 0
  /\ LET rep == NextReport(Cases[c].lex, W, cfg)
         o == out \o Adds(W, F, rep, done)
     IN /\ out' = o
        /\ cfg' = rep.c
        /\ done' = IF rep.id = EOI THEN -1 ELSE rep.s
        /\ toks' = toks + 1
        /\ bad' = IF rep.id = EOI /\ Wrong(o) # {}
                  THEN "expected " \o ToString(o) \o " from " \o
                       ToString([j \in Wrong(o) |-> Obs[c].r[t][k][j]])
                  ELSE ""
  /\ UNCHANGED <<c, t, k>>

Spec == Init /\ [][Step]_vars

Conforms == bad = ""
\* replacing ends, and a replacement that lists no id leaves the text alone
Terminates == toks <= Len(W) + 1
Untouched == (t > 0 /\ done = -1 /\ F.k # "str" /\ F.m = <<>>) => out = W
=============================================================================
