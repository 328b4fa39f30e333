---------------------------- MODULE CompareTrace ----------------------------
(* Events: operation o, r the answers of the six operators; bad: the       *)
(* operands were changed by the comparison or it did not yield bool.       *)
EXTENDS Compare, TLC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES tid, l
TInit == Init /\ tid \in DOMAIN Traces /\ l = 1
Evs == Traces[tid].ev
Accept(e) == /\ e.e = "op" /\ Do(e.o) /\ e.r = Result(e.o) /\ e.bad = 0
             /\ \A x \in Vars : e.vs[x] = o'[x]
Step == /\ l <= Len(Evs)
        /\ Accept(Evs[l])
        /\ l' = l + 1 /\ UNCHANGED tid
        /\ l = Len(Evs) => PrintT(<<"accepted", tid>>)
TSpec == TInit /\ [][Step]_<<o, tid, l>>
ProgressLog == PrintT(<<"at", tid, l>>)
=============================================================================
