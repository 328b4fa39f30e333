-------------------------- MODULE OptionalRefTrace --------------------------
(* Events: operation o, kind k, result r, vs (cells designated, in all     *)
(* ways to find out), rd (values read through the optional in all ways),   *)
(* cv (the cells), bad (inconsistent answers).                             *)
EXTENDS OptionalRef, TLC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES tid, l
TInit == Init /\ tid \in DOMAIN Traces /\ l = 1
Evs == Traces[tid].ev
Matches(e) == /\ \A x \in Vars : e.vs[x] = <<o'[x]>>
              /\ \A x \in Vars : e.rd[x] = <<IF o'[x] = 0 THEN 0 ELSE cell'[o'[x]]>>
              /\ \A c \in Cells : e.cv[c] = cell'[c]
              /\ e.bad = 0
Accept(e) == /\ e.e = "op" /\ Legal(e.k, e.o) /\ Do(e.k, e.o) /\ e.r = Result(e.k, e.o) /\ Matches(e)
Step == /\ l <= Len(Evs)
        /\ Accept(Evs[l])
        /\ l' = l + 1 /\ UNCHANGED tid
        /\ l = Len(Evs) => PrintT(<<"accepted", tid>>)
TSpec == TInit /\ [][Step]_<<vars, tid, l>>
ProgressLog == PrintT(<<"at", tid, l>>)
=============================================================================
