----------------------------- MODULE ScaleTrace -----------------------------
(* Trace validation for Scale: an event is an operation o with its result  *)
(* r, what an emission invoked (em; sm = 1: all emissions of the operation *)
(* invoked the same in the same order), how many callables exist (lv) and  *)
(* whether one was used outside of its life or with other arguments (bad). *)
EXTENDS Scale, TLC, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES tid, l

TInit == Init /\ tid \in DOMAIN Traces /\ l = 1
Evs == Traces[tid].ev

Accept(e) == /\ e.e = "op"
             /\ e.r = Result(e.o)
             /\ e.sm = 1
             /\ Do(e.o, e.em)
             /\ e.lv = Size(list'[1]) + Size(list'[2])
             /\ e.bad = 0
End(e) == e.e = "end" /\ e.lv = 0 /\ e.bad = 0 /\ UNCHANGED vars

Step == /\ l <= Len(Evs)
        /\ Accept(Evs[l]) \/ End(Evs[l])
        /\ l' = l + 1 /\ UNCHANGED tid
        /\ l = Len(Evs) => PrintT(<<"accepted", tid>>)
TSpec == TInit /\ [][Step]_<<vars, tid, l>>
ProgressLog == PrintT(<<"at", tid, l>>)
=============================================================================
