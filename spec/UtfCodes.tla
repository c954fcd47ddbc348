------------------------------- MODULE UtfCodes -------------------------------
(***************************************************************************)
(* The encodings themselves, at every scalar value: inverse, minimal,      *)
(* and no encoding a part of another (so any sequence of them decodes in   *)
(* one way, and the start of one is found from inside it).                 *)
(***************************************************************************)
EXTENDS Utf, TLC
VARIABLE hi
Init == hi \in 0..15
Next == hi + 16 <= 4351 /\ hi' = hi + 16
Spec == Init /\ [][Next]_hi
Here == {c \in (hi * 256)..(hi * 256 + 255) : Scalar(c)}
Inverses == \A c \in Here :
  /\ Step8(Enc8(c), 0) = [c |-> c, n |-> Len(Enc8(c))]
  /\ Step16(Enc16(c), 0) = [c |-> c, n |-> Len(Enc16(c))]
  /\ Proper(8, Step8(Enc8(c), 0)) /\ Proper(16, Step16(Enc16(c), 0))
Shape == \A c \in Here :
  LET e == Enc8(c)
      u == Enc16(c)
  IN /\ ~Cont(e[1]) /\ \A j \in 2..Len(e) : Cont(e[j])
     /\ Len8(e[1]) = Len(e)
     /\ \A j \in 1..Len(e) : e[j] \in 0..255
     /\ Len(u) = 1 => ~Low(u[1]) /\ ~High(u[1])
     /\ Len(u) = 2 => High(u[1]) /\ Low(u[2])
\* cut short or with its first unit missing it is an error, never another text
Cut == \A c \in Here :
  LET e == Enc8(c)
      u == Enc16(c)
  IN /\ \A j \in 1..(Len(e) - 1) : Decode(8, SubSeq(e, 1, j), 0) = <<-1>> /\ Decode(8, SubSeq(e, j + 1, Len(e)), 0) = <<-1>>
     /\ Len(u) = 2 => Decode(16, <<u[1]>>, 0) = <<-1>> /\ Decode(16, <<u[2]>>, 0) = <<-1>>
=============================================================================
