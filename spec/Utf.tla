---------------------------------- MODULE Utf ----------------------------------
(***************************************************************************)
(* UTF-8 and UTF-16 (Unicode standard, chapter 3.9), and the iterators     *)
(* converting between them: an iterator over a converted text stands       *)
(* between two units of the result.                                        *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, FiniteSets, SequencesExt

Scalar(c) == c \in 0..55295 \/ c \in 57344..1114111

Enc8(c) == CASE c < 128   -> <<c>>
             [] c < 2048  -> <<192 + c \div 64, 128 + (c % 64)>>
             [] c < 65536 -> <<224 + c \div 4096, 128 + ((c \div 64) % 64), 128 + (c % 64)>>
             [] OTHER     -> <<240 + c \div 262144, 128 + ((c \div 4096) % 64), 128 + ((c \div 64) % 64), 128 + (c % 64)>>
Enc16(c) == IF c < 65536 THEN <<c>> ELSE <<55296 + (c - 65536) \div 1024, 56320 + ((c - 65536) % 1024)>>

Cont(b) == b \in 128..191
Len8(b) == CASE b < 128 -> 1 [] b \in 192..223 -> 2 [] b \in 224..239 -> 3 [] b \in 240..247 -> 4 [] OTHER -> 0
Low(u) == u \in 56320..57343
High(u) == u \in 55296..56319

\* One step of decoding at offset i (from 0): the character and the number
\* of units taken; n = 0: not a sequence.
Step8(b, i) ==
  LET n == Len8(b[i + 1])
      x(j) == b[i + 1 + j] % 64
  IN IF n = 0 \/ i + n > Len(b) \/ \E j \in 1..(n - 1) : ~Cont(b[i + 1 + j]) THEN [c |-> -1, n |-> 0]
     ELSE [n |-> n, c |-> CASE n = 1 -> b[i + 1]
                            [] n = 2 -> (b[i + 1] - 192) * 64 + x(1)
                            [] n = 3 -> (b[i + 1] - 224) * 4096 + x(1) * 64 + x(2)
                            [] n = 4 -> (b[i + 1] - 240) * 262144 + x(1) * 4096 + x(2) * 64 + x(3)]
Step16(b, i) ==
  LET u == b[i + 1]
  IN CASE ~Low(u) /\ ~High(u) -> [c |-> u, n |-> 1]
       [] High(u) /\ i + 2 <= Len(b) -> IF Low(b[i + 2]) THEN [c |-> (u - 55296) * 1024 + (b[i + 2] - 56320) + 65536, n |-> 2] ELSE [c |-> -1, n |-> 0]
       [] OTHER -> [c |-> -1, n |-> 0]
\* what the standard admits besides the shape
Proper(k, s) == Scalar(s.c) /\ s.n = Len(IF k = 8 THEN Enc8(s.c) ELSE Enc16(s.c))

RECURSIVE Decode(_, _, _)
\* the characters up to the end (last element -1: an error there; -2: a
\* sequence of the right shape that is not proper, what follows is open)
Decode(k, b, i) ==
  IF i = Len(b) THEN <<>>
  ELSE LET s == IF k = 8 THEN Step8(b, i) ELSE Step16(b, i)
       IN IF s.n = 0 THEN <<-1>>
          ELSE IF ~Proper(k, s) THEN <<-2>>
          ELSE <<s.c>> \o Decode(k, b, i + s.n)

Cat(t, F(_)) == FlattenSeq([j \in 1..Len(t) |-> F(t[j])])
Enc8s(t) == Cat(t, Enc8)
Enc16s(t) == Cat(t, Enc16)

\* the bytes of a unit in the other order; 32-bit units as two halves (TLC
\* integers have 31 bits)
Flip2(x) == (x % 256) * 256 + (x \div 256)
Flip4(x) == <<Flip2(x % 65536), Flip2(x \div 65536)>>

\* --- iterators ---------------------------------------------------------------
\* kinds: what is read and what comes out
Source(k, t) == CASE k \in {"in8", "in8l", "out16in8", "outwin8"} -> Enc8s(t)
                  [] k \in {"in16", "in16w", "out8in16", "out8inw"} -> Enc16s(t)
                  [] OTHER -> t
Result(k, t) == CASE k \in {"in8", "in8l", "in16", "in16w"} -> t
                  [] k \in {"out8", "out8in16", "out8inw"} -> Enc8s(t)
                  [] k \in {"out16", "out16in8", "outwin8"} -> Enc16s(t)
                  [] k = "flip2" -> Cat(t, LAMBDA c : <<Flip2(c)>>)
                  [] k = "flip4" -> Cat(t, LAMBDA c : <<Flip4(c)>>)
Steps(k) == k \in {"in8", "in8l", "in16", "in16w"}      \* those that can be moved by n
Offset(k, t, p) == Len(Source(k, SubSeq(t, 1, p)))

None == -1
\* <<name, slot, slot, n>>
Enabled(n, steps, sl, o) ==
  LET a == sl[o[2]] IN
  CASE o[1] \in {"new", "end", "null"} -> TRUE
    [] o[1] = "self" -> TRUE
    [] o[1] \in {"copy", "assign"} -> o[2] # o[3] /\ a # None
    [] o[1] = "inc" -> a # None /\ a < n
    [] o[1] = "post" -> a # None /\ a < n /\ o[2] # o[3]
    [] o[1] = "plus" -> steps /\ a # None /\ a + o[4] <= n
    [] o[1] = "minus" -> steps /\ a # None /\ a - o[4] >= 0
Apply(n, sl, o) ==
  LET a == o[2] IN
  CASE o[1] = "new" -> [sl EXCEPT ![a] = 0]
    [] o[1] = "end" -> [sl EXCEPT ![a] = n]
    [] o[1] = "null" -> [sl EXCEPT ![a] = None]
    [] o[1] = "self" -> sl
    [] o[1] \in {"copy", "assign"} -> [sl EXCEPT ![o[3]] = sl[a]]
    [] o[1] = "inc" -> [sl EXCEPT ![a] = @ + 1]
    [] o[1] = "post" -> [sl EXCEPT ![o[3]] = sl[a], ![a] = sl[a] + 1]
    [] o[1] = "plus" -> [sl EXCEPT ![o[3]] = sl[a] + o[4]]
    [] o[1] = "minus" -> [sl EXCEPT ![o[3]] = sl[a] - o[4]]
=============================================================================
