------------------------------- MODULE StreamMC -------------------------------
(***************************************************************************)
(* The buffer behind shared stream iterators, as the implementation keeps  *)
(* it (sh, ix), running under every sequence of operations next to the     *)
(* abstract iterators of module Stream (sl).  Reads: whatever happened,    *)
(* the buffer holds the right character for every iterator.                *)
(* The histories are also the schedules replayed on the real code.         *)
(***************************************************************************)
EXTENDS Stream, TLC, Json

CONSTANTS Slots, Depth, Emit

Exhaustive == Depth = 0
Ws == IF Exhaustive THEN << <<>>, <<1, 2, 3, 4, 5>> >>
      ELSE IF Depth < 10 THEN << <<1, 2, 3>> >> ELSE << <<>>, <<1>>, <<1, 2, 3, 4, 5>>, [j \in 1..14 |-> j] >>
Sizes == IF Exhaustive THEN {1, 2, 3} ELSE IF Depth < 10 THEN {2} ELSE {1, 2, 3, 5}
Incs == IF ~Exhaustive /\ Depth < 10 THEN {1} ELSE {1, 2}
Gs == IF Exhaustive THEN {1} ELSE {1, 2}
npos == 99

VARIABLES sl, moved,   \* abstract
          sh,          \* stream object -> [buf, len, inc, rd, w]; None when freed
          ix,          \* slot -> [g, i, master]; g = 0 for none
          hist
vars == <<sl, moved, sh, ix, hist>>

None == [len |-> -1]
NoIx == [g |-> 0, i |-> npos, m |-> FALSE]

Init == /\ sl = [s \in Slots |-> Null] /\ moved = {}
        /\ sh = [g \in Gs |-> None] /\ ix = [s \in Slots |-> NoIx] /\ hist = <<>>

\* --- the implementation ------------------------------------------------------
Content(b) == Ws[b.w]
Rest(b, n) == LET W == Content(b) IN SubSeq(W, b.rd + 1, IF b.rd + n < Len(W) THEN b.rd + n ELSE Len(W))
Lowest(x, g) == LET I == {x[s].i : s \in {t \in Slots : x[t].g = g}} \ {npos} IN IF I = {} THEN 0 ELSE Min(I)
Fill(b, x, n) == [j \in 1..n |-> IF j <= Len(x) THEN x[j] ELSE 0]
Open(w, size, inc) ==
  LET b == [buf |-> [j \in 1..size |-> 0], len |-> 0, inc |-> inc, rd |-> 0, w |-> w]
      x == Rest(b, size)
  IN [b EXCEPT !.buf = Fill(b, x, size), !.len = Len(x), !.rd = Len(x)]
IxPos(x, g) == LET n == Lowest(x, g) IN IF n < sh[g].len THEN n ELSE npos
Where(x, s) == IF x[s].m THEN IxPos(x, x[s].g) ELSE x[s].i

\* advance slot s (already not a master): the new index table and buffer
Reload(x, b, s) ==
  LET g == x[s].g
      low == Lowest(x, g)
      n == Len(b.buf)
  IN IF low = 0
     THEN LET r == Rest(b, b.inc)
          IN [x |-> IF r = <<>> THEN [x EXCEPT ![s].i = npos] ELSE x,
              b |-> [b EXCEPT !.buf = [j \in 1..(n + b.inc) |-> IF j <= n THEN b.buf[j] ELSE IF j - n <= Len(r) THEN r[j - n] ELSE 0],
                              !.len = IF r = <<>> THEN b.len ELSE n + Len(r), !.rd = b.rd + Len(r)]]
     ELSE LET start == n - low
              r == Rest(b, low)
              y == [t \in Slots |-> IF x[t].g = g /\ x[t].i # npos THEN [x[t] EXCEPT !.i = x[t].i - low] ELSE x[t]]
              high == y[s].i
          IN [x |-> IF r = <<>> THEN [y EXCEPT ![s].i = npos] ELSE y,
              b |-> [b EXCEPT !.buf = [j \in 1..n |-> IF j <= start THEN b.buf[low + j] ELSE IF j - start <= Len(r) THEN r[j - start] ELSE b.buf[j]],
                              !.len = IF r = <<>> THEN high ELSE start + Len(r), !.rd = b.rd + Len(r)]]
Advance(x, s) ==
  LET y == [x EXCEPT ![s].i = x[s].i + 1]
  IN IF y[s].i >= sh[x[s].g].len THEN Reload(y, sh[x[s].g], s) ELSE [x |-> y, b |-> sh[x[s].g]]
Settle(x, s) == [x EXCEPT ![s] = [g |-> x[s].g, i |-> Where(x, s), m |-> FALSE]]

\* --- both together -----------------------------------------------------------
Ops == {<<"new", s, w, z, n>> : s \in Slots, w \in 1..Len(Ws), z \in Sizes, n \in Incs}
       \cup {<<k, s>> : k \in {"null", "self", "read", "inc"}, s \in Slots}
       \cup {<<k, s, d>> : k \in {"copy", "assign", "swap", "post"}, s \in Slots, d \in Slots}

Free(s) == {g \in Gs : \A t \in Slots \ {s} : ix[t].g # g}
Ok(o) == /\ Enabled(Ws, sl, moved, o)
         /\ o[1] = "new" => Free(o[2]) # {}

Collect(x, h) == [g \in Gs |-> IF \E s \in Slots : x[s].g = g THEN h[g] ELSE None]

Do(o) ==
  LET a == o[2]
      g == IF o[1] = "new" THEN Min(Free(a)) ELSE ix[a].g
      st == Settle(ix, a)
      w == Where(ix, a)
      adv == Advance(IF o[1] = "post" THEN [st EXCEPT ![o[3]] = [g |-> g, i |-> w, m |-> FALSE]] ELSE st, a)
      x == CASE o[1] = "new" -> [ix EXCEPT ![a] = [g |-> g, i |-> npos, m |-> TRUE]]
             [] o[1] = "null" -> [ix EXCEPT ![a] = NoIx]
             [] o[1] = "self" -> ix
             [] o[1] \in {"copy", "assign"} -> [ix EXCEPT ![o[3]] = [g |-> g, i |-> w, m |-> FALSE]]
             [] o[1] = "swap" -> [ix EXCEPT ![a] = ix[o[3]], ![o[3]] = ix[a]]
             [] o[1] = "read" -> st
             [] o[1] \in {"inc", "post"} -> adv.x
  IN /\ sl' = Apply(Ws, sl, moved, g, o)
     /\ moved' = IF o[1] = "new" THEN moved \ {g} ELSE Moved(sl, moved, o)
     /\ ix' = x
     /\ sh' = Collect(x, CASE o[1] = "new" -> [sh EXCEPT ![g] = Open(o[3], o[4], o[5])]
                           [] o[1] \in {"inc", "post"} -> [sh EXCEPT ![g] = adv.b]
                           [] OTHER -> sh)
     /\ hist' = IF Depth = 0 THEN hist ELSE Append(hist, o)

Next == /\ Len(hist) < Depth \/ Depth = 0
        /\ \E o \in Ops : Ok(o) /\ Do(o)
\* slots are interchangeable
Sym == Permutations(Slots)
Spec == Init /\ [][Next]_vars
\* buffers that keep growing (an end reached again and again) are not followed
Small == \A g \in Gs : sh[g] = None \/ Len(sh[g].buf) <= 9

\* --- the property ------------------------------------------------------------
Reads == \A s \in Slots : (sl[s].k = "at" /\ sl[s].p < Len(Ws[sl[s].w])) =>
                             /\ ix[s].i < sh[ix[s].g].len
                             /\ sh[ix[s].g].buf[ix[s].i + 1] = Ws[sl[s].w][sl[s].p + 1]
EndsMatch == \A s \in Slots : (sl[s].k = "at" /\ sl[s].p = Len(Ws[sl[s].w])) => ix[s].i = npos
MasterRight == \A s \in Slots : (sl[s].k = "master" /\ Pos(Ws, sl, moved, s) # Undef) =>
                  LET p == Pos(Ws, sl, moved, s)
                      n == Where(ix, s)
                  IN IF p = Len(Ws[sl[s].w]) THEN n = npos ELSE n # npos /\ sh[ix[s].g].buf[n + 1] = Ws[sl[s].w][p + 1]
EqRight == \A s, t \in Slots : (ix[s].g = ix[t].g /\ ix[s].g # 0 /\ Defined(Ws, sl, moved, s, t)) =>
              (Eq(Ws, sl, moved, s, t) <=> Where(ix, s) = Where(ix, t))
Emits == (Emit /\ Len(hist) = Depth) => PrintT("@" \o ToJson(hist))

\* --- long schedules for replay -------------------------------------------------
Kinds == <<"inc", "inc", "inc", "inc", "inc", "inc", "inc", "inc", "inc", "inc", "inc", "inc", "post", "post", "post", "copy", "copy", "copy", "assign", "assign", "assign", "new", "read", "swap", "self", "null">>
Of(K) == {o \in Ops : o[1] \in K /\ Ok(o)}
GenNext ==
  /\ Len(hist) < Depth
  /\ \E K \in {IF \A s \in Slots : sl[s].k = "null" THEN {"new"} ELSE {Kinds[RandomElement(1..Len(Kinds))]}} :
     \E o \in {RandomElement(IF Of(K) # {} THEN Of(K) ELSE IF Of({"inc"}) # {} THEN Of({"inc"}) ELSE IF Of({"new"}) # {} THEN Of({"new"}) ELSE Of({"null"}))} : Do(o)
GenSpec == Init /\ [][GenNext]_vars
=============================================================================
