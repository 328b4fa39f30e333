--------------------------- MODULE CallableTrace ---------------------------
(* Events: operation o, signature g, r the results, ac the accumulators,   *)
(* em (which slot variables are empty), bad (objects used outside of their *)
(* life); at the end lv (objects that still exist).                        *)
EXTENDS Callable, TLC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES tid, l
TInit == Init /\ tid \in DOMAIN Traces /\ l = 1
Evs == Traces[tid].ev
Op(e) == IF "k" \in DOMAIN e.o THEN [op |-> e.o.op, i |-> e.o.i, kd |-> <<e.o.k, e.o.d>>] @@ e.o ELSE e.o
Accept(e) == /\ e.e = "op"
             /\ Legal(e.g, Op(e))
             /\ e.r \in Res(e.g, Op(e))
             /\ Do(e.g, Op(e), e.r)
             /\ \A i \in 0..2 : e.ac[i + 1] = acc'[i]
             /\ \A s \in SVars : e.em[s] = (IF sl'[s] = None THEN 1 ELSE 0)
             /\ e.bad = 0
End(e) == e.e = "end" /\ e.lv = 0 /\ e.bad = 0 /\ UNCHANGED vars
Step == /\ l <= Len(Evs)
        /\ Accept(Evs[l]) \/ End(Evs[l])
        /\ l' = l + 1 /\ UNCHANGED tid
        /\ l = Len(Evs) => PrintT(<<"accepted", tid>>)
TSpec == TInit /\ [][Step]_<<vars, tid, l>>
ProgressLog == PrintT(<<"at", tid, l>>)
=============================================================================
