-------------------------------- MODULE UtfTrace --------------------------------
(***************************************************************************)
(* Trace validation for the UTF iterators.  Cases:                         *)
(*  "ops"  a schedule on iterators of one kind over one text               *)
(*  "all"  a run of consecutive scalar values through every conversion     *)
(*  "dec"  units, well-formed or not, decoded to the end or the error      *)
(***************************************************************************)
EXTENDS Utf, TLC, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.CASES)
Obs   == ndJsonDeserialize(IOEnv.OBS)
Slots == 1..4
VARIABLES c, n, sl, bad
vars == <<c, n, sl, bad>>

K == Cases[c].kind
T == Cases[c].t
Out == Result(K, T)

Block == LET lo == Cases[c].lo IN SelectSeq([j \in 1..Cases[c].n |-> lo + j - 1], Scalar)
AllBad(o) == LET e8 == Enc8s(Block)
                 e16 == Enc16s(Block)
             IN IF e8 # Cases[c].s8 \/ e16 # Cases[c].s16 THEN "case"
                ELSE IF o.o8 # e8 THEN "UTF-8 output"
                ELSE IF o.o16 # e16 THEN "UTF-16 output"
                ELSE IF o.d8 # Block THEN "UTF-8 input"
                ELSE IF o.d16 # Block THEN "UTF-16 input"
                ELSE IF o.x16 # e16 THEN "UTF-8 to UTF-16"
                ELSE IF o.x8 # e8 THEN "UTF-16 to UTF-8"
                ELSE ""
Agrees(w, g) == IF w # <<>> /\ w[Len(w)] = -2 THEN Len(g) >= Len(w) - 1 /\ SubSeq(g, 1, Len(w) - 1) = SubSeq(w, 1, Len(w) - 1)
                ELSE g = w
DecBad(o) == LET w == Decode(Cases[c].w, Cases[c].src, 0)
             IN IF Agrees(w, o.r) THEN "" ELSE "expected " \o ToString(w) \o " recorded " \o ToString(o.r)

Init == /\ c \in 1..Len(Cases) /\ n = 0 /\ sl = [s \in Slots |-> None]
        /\ bad = CASE Obs[c].e # "" -> "exception " \o Obs[c].e
                   [] Cases[c].k = "all" -> AllBad(Obs[c])
                   [] Cases[c].k = "dec" -> DecBad(Obs[c])
                   [] OTHER -> IF Cases[c].src = Source(K, T) THEN "" ELSE "case"

Shown(p) == CASE p = None -> <<0>>
              [] p = Len(Out) -> IF K = "in8" THEN <<2, Offset(K, T, p)>> ELSE <<2>>
              [] OTHER -> IF K = "in8" THEN <<1, Out[p + 1], Offset(K, T, p)>> ELSE <<1, Out[p + 1]>>
Step ==
  /\ bad = "" /\ Cases[c].k = "ops" /\ n < Len(Cases[c].ops)
  /\ LET o == Cases[c].ops[n + 1]
         ob == Obs[c].r[n + 1]
         new == Apply(Len(Out), sl, o)
         L == {s \in Slots : new[s] # None}
         want == {<<a, b, IF new[a] = new[b] THEN 1 ELSE 0>> : a \in L, b \in L}
         got == {ob.eq[j] : j \in 1..Len(ob.eq)}
         gt == IF K = "in8" THEN {<<a, b>> \in L \X L : new[a] > new[b]} ELSE {}
     IN /\ sl' = new
        /\ bad' = IF ~Enabled(Len(Out), Steps(K), sl, o) THEN "schedule"
                  ELSE IF ob.s # [s \in Slots |-> Shown(new[s])] THEN "expected " \o ToString([s \in Slots |-> Shown(new[s])]) \o " recorded " \o ToString(ob.s)
                  ELSE IF got # want THEN "comparisons " \o ToString(want) \o " recorded " \o ToString(got)
                  ELSE IF {ob.gt[j] : j \in 1..Len(ob.gt)} # gt THEN "greater " \o ToString(gt) \o " recorded " \o ToString(ob.gt)
                  ELSE ""
  /\ n' = n + 1 /\ UNCHANGED c
Spec == Init /\ [][Step]_vars
Conforms == bad = ""
=============================================================================
