-------------------------------- MODULE FileMC --------------------------------
(* Histories of memory files, for replay, and what they hold on the way. *)
EXTENDS MemoryFile, TLC, Json
CONSTANTS Depth
VARIABLES sl, hist, mapped   \* mapped: files held in memory, as a bag: object -> file
vars == <<sl, hist, mapped>>
Slots == {1, 2}
Ops == {<<k, s, f>> : k \in {"newopen", "open"}, s \in Slots, f \in -1..3} \cup {<<k, s>> : k \in {"new", "close", "del"}, s \in Slots}
Init == sl = [s \in Slots |-> Gone] /\ hist = <<>> /\ mapped = [s \in Slots |-> 0]
\* what is held: taken on a successful open, given back by everything else
Mapped(o) == [mapped EXCEPT ![o[2]] = IF o[1] \in {"newopen", "open"} /\ o[3] > 0 THEN o[3] ELSE 0]
Do(o) == sl' = Apply(sl, o) /\ hist' = Append(hist, o) /\ mapped' = Mapped(o)
Next == Len(hist) < Depth /\ \E o \in Ops : Do(o)
GenNext == Len(hist) < Depth /\ \E o \in {RandomElement(Ops)} : Do(o)
Spec == Init /\ [][Next]_vars
GenSpec == Init /\ [][GenNext]_vars
Held == \A s \in Slots : mapped[s] = IF sl[s].k = "open" /\ sl[s].f > 0 THEN sl[s].f ELSE 0
Emits == Len(hist) = Depth => PrintT("@" \o ToJson(hist))
=============================================================================
