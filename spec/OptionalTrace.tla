--------------------------- MODULE OptionalTrace ---------------------------
(* Trace validation for Optional.  An event: the operation o, k the kind,  *)
(* th (the exception of a value came out), fi (it was thrown), r result,   *)
(* vs (per variable, all the values the accessors yielded: <<v>>, <<0>> if *)
(* empty), lv (value objects that exist), bad (misused objects).           *)
EXTENDS Optional, TLC, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES tid, l

TInit == Init /\ tid \in DOMAIN Traces /\ l = 1
Evs == Traces[tid].ev

Live(k) == IF Throws(k) THEN Cardinality({x \in Vars : o'[x] # 0}) ELSE 0
Matches(e) == /\ \A x \in Vars : e.vs[x] = <<o'[x]>>
              /\ e.lv = Live(e.k)
              /\ e.bad = 0
Accept(e) == /\ e.e = "op"
             /\ Legal(e.k, e.o)
             /\ e.th = e.fi
             /\ IF e.th = 1 THEN DoFail(e.k, e.o)
                ELSE DoOk(e.k, e.o) /\ e.r = OkResult(e.k, e.o)[2]
             /\ Matches(e)
End(e) == e.e = "end" /\ e.lv = 0 /\ e.bad = 0 /\ UNCHANGED vars

Step == /\ l <= Len(Evs)
        /\ Accept(Evs[l]) \/ End(Evs[l])
        /\ l' = l + 1 /\ UNCHANGED tid
        /\ l = Len(Evs) => PrintT(<<"accepted", tid>>)
TSpec == TInit /\ [][Step]_<<vars, tid, l>>
ProgressLog == PrintT(<<"at", tid, l>>)
=============================================================================
