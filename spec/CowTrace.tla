------------------------------ MODULE CowTrace ------------------------------
(* Trace validation for Cow: an event is an operation o with its result r  *)
(* and the observations after it: vs (values read through each pointer in  *)
(* all ways, <<v>> if they agree), sh (first pointer with the same         *)
(* object), eq (do == and != agree with that), rf (values read through the *)
(* references), lv (objects that exist), cp (copies made), bad (objects    *)
(* used before or after their life).                                       *)
EXTENDS Cow, TLC, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES tid, l

TInit == Init /\ tid \in DOMAIN Traces /\ l = 1
Evs == Traces[tid].ev

Matches(e) == /\ \A x \in Vars : e.vs[x] = <<ValueOf(x)'>>
              /\ \A x \in Vars : e.sh[x] = FirstOf(x)'
              /\ e.eq = 1
              /\ \A h \in Refs : hld'[h] # 0 => e.rf[h] = val'[ptr'[hld'[h]]]
              /\ e.lv = Cardinality(Live')
              /\ e.cp = cp'
              /\ e.bad = 0

Accept(e) == /\ e.e = "op"
             /\ Legal(e.o)
             /\ e.r = Result(e.o)
             /\ Do(e.o)
             /\ Matches(e)
\* At the end all pointers are destroyed.
End(e) == e.e = "end" /\ e.lv = 0 /\ e.bad = 0 /\ UNCHANGED vars

Step == /\ l <= Len(Evs)
        /\ Accept(Evs[l]) \/ End(Evs[l])
        /\ l' = l + 1 /\ UNCHANGED tid
        /\ l = Len(Evs) => PrintT(<<"accepted", tid>>)
TSpec == TInit /\ [][Step]_<<vars, tid, l>>
ProgressLog == PrintT(<<"at", tid, l>>)
=============================================================================
