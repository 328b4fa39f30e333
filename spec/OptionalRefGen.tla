--------------------------- MODULE OptionalRefGen ---------------------------
EXTENDS OptionalRef, TLC, Json, IOUtils
Cfg == JsonDeserialize(IOEnv.MC)
K == Cfg.kind
VARIABLES hist
GenInit == Init /\ hist = <<>>
GenNext == \E p \in Ops(K) : /\ Legal(K, p) /\ Do(K, p)
                             /\ Assert(CellsOnlyBySet(K, p) /\ Isolated(K, p), <<"violated by", p>>)
                             /\ hist' = Append(hist, p)
                             /\ PrintT("PROG " \o ToJson(hist'))
View == vars
GenSpec == GenInit /\ [][GenNext]_<<vars, hist>>
WalkNext == /\ Len(hist) < Cfg.depth
            /\ \E p \in {RandomElement({q \in Ops(K) : Legal(K, q)})} : Do(K, p) /\ hist' = Append(hist, p)
            /\ Len(hist') = Cfg.depth => PrintT("PROG " \o ToJson(hist'))
WalkSpec == GenInit /\ [][WalkNext]_<<vars, hist>>
VoidEmpty == K = "D" => \A x \in Vars : o[x] = 0
=============================================================================
