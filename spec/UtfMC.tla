--------------------------------- MODULE UtfMC ---------------------------------
(***************************************************************************)
(* The iterators as implemented (ix: offsets into what is read, the unit   *)
(* reached within an encoding, the decoded character kept) under every     *)
(* schedule, next to the positions of module Utf (sl).  The histories are  *)
(* also the schedules replayed on the real iterators.                      *)
(***************************************************************************)
EXTENDS Utf, TLC, Json
CONSTANTS Slots, Depth, Emit

Exhaustive == Depth = 0
Kinds == {"in8", "in16", "out8", "out16", "flip4"}
Texts == IF Exhaustive THEN {<<>>, <<65, 233, 8364, 66560>>, <<66560, 65, 57344>>}
         ELSE IF Depth < 10 THEN {<<8364, 66560>>}
         ELSE {<<>>, <<233>>, <<65, 66560>>, <<66560, 8364, 233, 65, 65>>, <<8364, 8364, 66560, 65, 233, 233, 66560, 66560, 65, 8364>>}
Ns == IF ~Exhaustive /\ Depth < 10 THEN {0, 1, 2} ELSE {0, 1, 2, 3}

VARIABLES kind, t, sl, ix, hist
vars == <<kind, t, sl, ix, hist>>

NoIx == [it |-> -1]
Init == /\ kind \in Kinds /\ t \in Texts
        /\ sl = [s \in Slots |-> None] /\ ix = [s \in Slots |-> NoIx] /\ hist = <<>>

Src == Source(kind, t)
Out == Result(kind, t)
N == Len(Out)
W == IF kind = "in8" THEN 8 ELSE 16

\* decoding iterators: where the character starts, where it ends, the character
Next1(x) == IF x.it = Len(Src) THEN x
            ELSE LET s == IF W = 8 THEN Step8(Src, x.it) ELSE Step16(Src, x.it) IN [x EXCEPT !.end = x.it + s.n, !.c = s.c]
Back(i) == LET C(j) == IF W = 8 THEN Cont(Src[j + 1]) ELSE Low(Src[j + 1])
           IN CHOOSE j \in 0..(i - 1) : ~C(j) /\ \A m \in (j + 1)..(i - 1) : C(m)
RECURSIVE Fwd(_, _)
Fwd(x, n) == IF n = 0 THEN x ELSE Fwd(Next1([x EXCEPT !.it = x.end]), n - 1)
RECURSIVE Rew(_, _)
Rew(x, n) == IF n = 0 THEN x ELSE Rew([x EXCEPT !.end = x.it, !.it = Back(x.it)], n - 1)
\* encoding iterators: the character, the units of its encoding, the unit reached
Enc(c) == CASE kind = "out8" -> Enc8(c) [] kind = "out16" -> Enc16(c) [] OTHER -> <<Flip4(c)>>
Load(x) == IF x.it = Len(Src) THEN [x EXCEPT !.i = 0] ELSE [x EXCEPT !.u = Enc(Src[x.it + 1]), !.i = 0]
Up(x) == IF x.i + 1 >= Len(x.u) THEN Load([x EXCEPT !.it = @ + 1]) ELSE [x EXCEPT !.i = @ + 1]

Make(i) == IF Steps(kind) THEN Next1([it |-> i, end |-> i, c |-> 0]) ELSE Load([it |-> i, u |-> <<>>, i |-> 0])
Inc(x) == IF Steps(kind) THEN Fwd(x, 1) ELSE Up(x)

Ops == {<<k, s>> : k \in {"new", "end", "null", "self", "inc"}, s \in Slots}
       \cup {<<k, s, d>> : k \in {"copy", "assign", "post"}, s \in Slots, d \in Slots}
       \cup {<<k, s, d, n>> : k \in {"plus", "minus"}, s \in Slots, d \in Slots, n \in Ns}
Ok(o) == Enabled(N, Steps(kind), sl, o)
Do(o) ==
  LET a == o[2] IN
  /\ sl' = Apply(N, sl, o)
  /\ ix' = CASE o[1] = "new" -> [ix EXCEPT ![a] = Make(0)]
             [] o[1] = "end" -> [ix EXCEPT ![a] = Make(Len(Src))]
             [] o[1] = "null" -> [ix EXCEPT ![a] = NoIx]
             [] o[1] = "self" -> ix
             [] o[1] \in {"copy", "assign"} -> [ix EXCEPT ![o[3]] = ix[a]]
             [] o[1] = "inc" -> [ix EXCEPT ![a] = Inc(@)]
             [] o[1] = "post" -> [ix EXCEPT ![o[3]] = ix[a], ![a] = Inc(ix[a])]
             [] o[1] = "plus" -> [ix EXCEPT ![o[3]] = Fwd(ix[a], o[4])]
             [] o[1] = "minus" -> [ix EXCEPT ![o[3]] = Next1(Rew(ix[a], o[4]))]
  /\ hist' = IF Exhaustive THEN hist ELSE Append(hist, o)
  /\ UNCHANGED <<kind, t>>
Next == (Exhaustive \/ Len(hist) < Depth) /\ \E o \in Ops : Ok(o) /\ Do(o)
Spec == Init /\ [][Next]_vars
Sym == Permutations(Slots)

\* --- the property ------------------------------------------------------------
\* every iterator gives the unit at its position
Gives == \A s \in Slots : (sl[s] # None /\ sl[s] < N) =>
           (IF Steps(kind) THEN ix[s].c ELSE ix[s].u[ix[s].i + 1]) = Out[sl[s] + 1]
\* and knows where what it reads starts
Starts == \A s \in Slots : (sl[s] # None /\ Steps(kind)) => ix[s].it = Offset(kind, t, sl[s])
EqRight == \A s, d \in Slots : (sl[s] # None /\ sl[d] # None) =>
             (sl[s] = sl[d] <=> IF Steps(kind) THEN ix[s].it = ix[d].it ELSE ix[s].it = ix[d].it /\ ix[s].i = ix[d].i)
Emits == (Emit /\ Len(hist) = Depth) => PrintT("@" \o ToJson([k |-> kind, t |-> t, ops |-> hist]))

Pick == <<"inc", "inc", "inc", "inc", "inc", "inc", "post", "post", "plus", "plus", "minus", "minus", "minus", "copy", "assign", "assign", "new", "end", "self", "null">>
Of(K) == {o \in Ops : o[1] \in K /\ Ok(o)}
GenNext ==
  /\ Len(hist) < Depth
  /\ \E K \in {IF \A s \in Slots : sl[s] = None THEN {"new", "end"} ELSE {Pick[RandomElement(1..Len(Pick))]}} :
     \E o \in {RandomElement(IF Of(K) # {} THEN Of(K) ELSE Of({"new"}))} : Do(o)
GenSpec == Init /\ [][GenNext]_vars
=============================================================================
