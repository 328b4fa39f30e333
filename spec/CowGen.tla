------------------------------- MODULE CowGen -------------------------------
(* Programs for the implementation: a shortest way to every state of the   *)
(* model followed by every operation (hist is not part of the view), or    *)
(* random walks of the given length (in simulation mode).                  *)
EXTENDS Cow, TLC, Json, IOUtils

Cfg == JsonDeserialize(IOEnv.MC)
VARIABLE hist
GenInit == Init /\ hist = <<>>
GenNext == \E o \in Ops : /\ Legal(o) /\ Do(o)
                          /\ hist' = Append(hist, o)
                          /\ PrintT("PROG " \o ToJson(hist'))
View == <<[x \in Vars |-> ValueOf(x)], [x \in Vars |-> FirstOf(x)], hld>>
Bound == Len(hist) <= Cfg.depth

WalkNext == /\ Len(hist) < Cfg.depth
            /\ \E o \in {RandomElement({q \in Ops : Legal(q)})} : Do(o) /\ hist' = Append(hist, o)
            /\ Len(hist') = Cfg.depth => PrintT("PROG " \o ToJson(hist'))
GenSpec == GenInit /\ [][GenNext]_<<vars, hist>>
WalkSpec == GenInit /\ [][WalkNext]_<<vars, hist>>
=============================================================================
