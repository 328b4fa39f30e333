---------------------------- MODULE MemoryTrace ----------------------------
(* Trace validation for Memory: what the threads of a test program did to  *)
(* the memory of the library, as recorded by harness/race.cpp in an        *)
(* execution of the real code.  An event is an operation k of thread t on  *)
(* the locations x: r, w (plain), ld, st, rm (atomic, with order o), fe    *)
(* (fence), acq, rel (mutex), sacq, srel (shared).  A trace with a data    *)
(* race is not accepted.  The unlocks of shared locks release to location  *)
(* x + N, which only exclusive locks acquire.                              *)
EXTENDS Memory, Sequences, TLC, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES tid, l
N == 10000

Set(q) == {q[i] : i \in DOMAIN q}
Shared(X) == {x + N : x \in X}
TInit == /\ tid \in DOMAIN Traces /\ l = 1
         /\ LET X == 1 .. Traces[tid].n
            IN MInit(X \cup (IF Traces[tid].sh THEN Shared(X) ELSE {}))
Evs == Traces[tid].ev

Do(e) == LET X == Set(e.x) IN
  CASE e.k = "r" -> Read(e.t, X)
    [] e.k = "w" -> Write(e.t, X)
    [] e.k = "ld" -> Load(e.t, X, e.o)
    [] e.k = "st" -> Store(e.t, X, e.o)
    [] e.k = "rm" -> Rmw(e.t, X, e.o)
    [] e.k = "fe" -> Fence(e.t, e.o)
    [] e.k = "acq" -> Acquire(e.t, X \cup (Shared(X) \cap DOMAIN syn))
    [] e.k = "rel" -> Release(e.t, X)
    [] e.k = "sacq" -> Acquire(e.t, X)
    [] e.k = "srel" -> Release(e.t, Shared(X))

Step == /\ l <= Len(Evs)
        /\ Do(Evs[l])
        /\ l' = l + 1 /\ UNCHANGED tid
        /\ l = Len(Evs) => PrintT(<<"accepted", tid>>)
TSpec == TInit /\ [][Step]_<<mvars, tid, l>>
ProgressLog == PrintT(<<"at", tid, l>>)
=============================================================================
