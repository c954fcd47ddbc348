----------------------------- MODULE RulesTrace -----------------------------
(***************************************************************************)
(* Recorded histories of calls on a real rules object, valid and not,      *)
(* against module RulesObj.  A case: [max, f, calls]; the observation has  *)
(* one entry per call: [e, s] with e = 1 when the call threw and s the     *)
(* object as its accessors show it afterwards; a build call also has       *)
(*   same  the target machine is as before (failed), the machine built a   *)
(*         second time is the same (succeeded)                             *)
(*   eq    a fresh object given only the calls that succeeded since the    *)
(*         last clear() comes to the same result                           *)
(*   r     the reports of the lexer on the texts of the call               *)
(***************************************************************************)
EXTENDS RulesObj, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.CASES)
Obs   == ndJsonDeserialize(IOEnv.OBS)

VARIABLES c, k, obj, bad
vars == <<c, k, obj, bad>>

\* ------------------------------------------------------ what accessors show
Row(e) == <<e.t, e.id, e.uid, e.nx, e.push, e.pop>>
\* a rule with non-greedy repeats may be held as several rows
Most(e) == IF IsLazy(e.k) THEN Len(Alts(e.k)) ELSE 1
RECURSIVE Rows(_, _, _, _, _)
Rows(R, j, rows, i, n) ==     \* n rows already given to rule j
  IF i > Len(rows) THEN (j = Len(R) /\ n > 0) \/ (j = 0 /\ Len(R) = 0)
  ELSE \/ j > 0 /\ n < Most(R[j]) /\ rows[i] = Row(R[j]) /\ Rows(R, j, rows, i + 1, n + 1)
       \/ j < Len(R) /\ rows[i] = Row(R[j + 1]) /\ Rows(R, j + 1, rows, i + 1, 1)

Bits == {1, 2, 4, 8, 16, 32, 64}
SetOf(n) == {b \in Bits : Bit(n, b)}

Differs(O, s) ==
  CASE s.f # O.f -> "flags"
    [] s.names # O.names -> "state names"
    [] s.map # 1 -> "the map of state names"
    [] {s.mac[j] : j \in 1..Len(s.mac)} # DOMAIN O.mac -> "macro names"
    [] Len(s.rules) # Len(O.rules) \/ (\E j \in 1..Len(O.rules) : ~Rows(O.rules[j], 0, s.rules[j], 1, 0)) -> "rules"
    [] \E j \in 1..Len(O.rules) : SetOf(s.feat[j]) # O.feat[j] -> "features"
    [] (s.empty = 1) # (\A j \in 1..Len(O.rules) : O.rules[j] = <<>>) -> "empty()"
    [] OTHER -> ""

\* ------------------------------------------------------------------ reports
Shown(w, rep) == IF rep.id = -1 THEN <<-1, 0, 0, 0, 0, 0, <<>>>>
                 ELSE <<rep.id, rep.uid, rep.f, rep.s, rep.c.st, IF ReportBol(w, rep) THEN 1 ELSE 0, rep.c.stk>>
RECURSIVE Reports(_, _, _)
Reports(L, w, cfg) == LET rep == NextReport(L, w, cfg)
                      IN <<Shown(w, rep)>> \o (IF Final(w, rep) THEN <<>> ELSE Reports(L, w, rep.c))

BuildBad(O, call, o, cap) ==
  LET B == Build(O)
  IN CASE B = "yes" /\ o.e = 1 /\ cap = 0 -> "a valid rule set was refused"
       [] B = "no" /\ o.e = 0 -> "an invalid rule set was accepted"
       [] o.same = 0 -> IF o.e = 1 THEN "a failed build changed the target" ELSE "building twice gave different machines"
       [] o.eq = 0 -> "a fresh object with the same calls in effect gives another machine"
       [] o.e = 0 /\ ~Bit(O.f, 16) /\ CanLex(O) ->
            LET L == LexerOf(O)
                W == {j \in 1..Len(call[2]) : o.r[j] # Reports(L, call[2][j], Config(0, 0, <<>>))}
            IN IF W = {} THEN "" ELSE LET j == CHOOSE j \in W : TRUE
                                     IN "text " \o ToString(call[2][j]) \o ": expected " \o ToString(Reports(L, call[2][j], Config(0, 0, <<>>))) \o " recorded " \o ToString(o.r[j])
       [] OTHER -> ""

\* the expression of a pushing call
TextOf(call) == IF call[1] \in {"push", "pushu"} THEN call[2] ELSE call[3]
Pushing == {"push", "pushu", "pushn", "pushs", "pushsu"}

Init ==
  /\ c \in 1..Len(Cases)
  /\ k = 0
  /\ obj = (IF Cases[c].f = -1 THEN Fresh ELSE Made(Cases[c].f))
  /\ bad = Differs(obj, Obs[c].s0)

Call ==
  /\ bad = ""
  /\ k < Len(Cases[c].calls)
  /\ LET call == Cases[c].calls[k + 1]
         o == Obs[c].r[k + 1]
         a == Apply(obj, call, Cases[c].max)
         lenient == call[1] \in Pushing /\ a.ok /\ o.e = 1 /\ MayRefuse(obj, TextOf(call))
         O == IF lenient THEN obj ELSE a.o
     IN /\ obj' = O
        /\ bad' = IF call[1] = "build" THEN (IF BuildBad(obj, call, o, Cases[c].cap) # "" THEN BuildBad(obj, call, o, Cases[c].cap)
                                             ELSE Differs(obj, o.s))
                  ELSE IF a.ok # (o.e = 0) /\ ~lenient THEN (IF a.ok THEN "a valid call was refused" ELSE "an invalid call was accepted")
                  ELSE IF Differs(O, o.s) # "" THEN "after the call: " \o Differs(O, o.s)
                  ELSE ""
  /\ k' = k + 1
  /\ UNCHANGED c

Spec == Init /\ [][Call]_vars

Conforms == bad = ""

\* ------------------------------------------------- invariants of the object
Shape == /\ Len(obj.names) = Len(obj.rules) /\ Len(obj.names) = Len(obj.feat)
         /\ obj.names[1] = Code.INITIAL
         /\ \A i, j \in 1..Len(obj.names) : i # j => obj.names[i] # obj.names[j]
Closed == \A s \in 1..Len(obj.rules) : \A j \in 1..Len(obj.rules[s]) :
            LET r == obj.rules[s][j]
            IN /\ r.pop = 1 \/ r.nx < Len(obj.names)
               /\ r.push = NPOS \/ r.push < Len(obj.names)
               /\ r.id # NPOS
=============================================================================
