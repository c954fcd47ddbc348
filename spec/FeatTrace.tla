------------------------------ MODULE FeatTrace ------------------------------
(***************************************************************************)
(* Recorded reports of results objects made for every set of features that *)
(* includes the machine's.  A case is a lexer with texts; for every text   *)
(* the record has one run [f |-> features, r |-> reports] per set.  After  *)
(* an empty report of an unmatched character the caller steps over it.     *)
(***************************************************************************)
EXTENDS Features, TLC, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.CASES)
Obs   == ndJsonDeserialize(IOEnv.OBS)

VARIABLES c, t, i, cfg, bad
vars == <<c, t, i, cfg, bad>>

L == Cases[c].lex
W == Cases[c].in[t]
Runs == Obs[c].r[t]

Init ==
  /\ c \in 1..Len(Cases)
  /\ t \in (IF Obs[c].e = "" THEN 1..Len(Cases[c].in) ELSE {0})
  /\ i = 0
  /\ cfg = Config(0, 0, <<>>)
  /\ bad = IF Obs[c].e # "" THEN "build failed"
           ELSE IF Obs[c].f # Needed(L, Cases[c].nst) THEN "features: expected " \o ToString(Needed(L, Cases[c].nst)) \o " recorded " \o ToString(Obs[c].f)
           ELSE IF \E k \in 1..Len(Obs[c].r) : \E j \in 1..Len(Obs[c].r[k]) : \E b \in {1, 2, 4, 8, 16, 32} : Has(Obs[c].f, b) /\ ~Has(Obs[c].r[k][j].f, b) THEN "harness: features left out"
           ELSE ""

\* every run takes the same step
Step ==
  /\ bad = "" /\ t > 0 /\ Runs # <<>>
  /\ \E j \in 1..Len(Runs) : i < Len(Runs[j].r)
  /\ LET rep == NextReport(L, W, cfg)
         Wrong == {j \in 1..Len(Runs) : i >= Len(Runs[j].r) \/ Runs[j].r[i + 1] # ShownWith(W, rep, Runs[j].f) \/ Final(W, rep) # (i + 1 = Len(Runs[j].r))}
     IN /\ i' = i + 1
        /\ cfg' = rep.c
        /\ bad' = IF Wrong = {} THEN ""
                  ELSE LET j == SetMin(Wrong)
                       IN "features " \o ToString(Runs[j].f) \o ": expected " \o ToString(ShownWith(W, rep, Runs[j].f))
                          \o " recorded " \o (IF i < Len(Runs[j].r) THEN ToString(Runs[j].r[i + 1]) ELSE "nothing")
  /\ UNCHANGED <<c, t>>

Spec == Init /\ [][Step]_vars
Conforms == bad = ""
Progress == i <= (IF t = 0 THEN 0 ELSE Len(W)) + 1
=============================================================================
