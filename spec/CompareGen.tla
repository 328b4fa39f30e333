----------------------------- MODULE CompareGen -----------------------------
EXTENDS Compare, TLC, Json, IOUtils
Cfg == JsonDeserialize(IOEnv.MC)
VARIABLES hist
GenInit == Init /\ hist = <<>>
GenNext == \E p \in Ops : Do(p) /\ hist' = Append(hist, p) /\ PrintT("PROG " \o ToJson(hist'))
View == o
GenSpec == GenInit /\ [][GenNext]_<<o, hist>>
WalkNext == /\ Len(hist) < Cfg.depth
            /\ \E p \in {RandomElement(Ops)} : Do(p) /\ hist' = Append(hist, p)
            /\ Len(hist') = Cfg.depth => PrintT("PROG " \o ToJson(hist'))
WalkSpec == GenInit /\ [][WalkNext]_<<o, hist>>
=============================================================================
