---------------------------- MODULE SignalsTrace ----------------------------
(***************************************************************************)
(* Trace validation: which of the traces recorded from the implementation  *)
(* are behaviours of Signals?  All traces of a batch are checked in one    *)
(* run; tid selects the trace, l is the next event.  Events:               *)
(*   call o        the public call o is about to be made                   *)
(*   ret r x [rf] [lv]  it returned r / threw x; rf: by-reference argument *)
(*                 of an emission afterwards, lv: the callables that exist *)
(*   inv c v rf cv a callable is invoked, with the arguments it sees       *)
(*   fin v rf x    it returns v or throws x and leaves rf behind           *)
(*   died o        tracked object o is destroyed                           *)
(*   copy, cfin x  copying a callable runs user code, which ends or throws *)
(*   dtor c, dfin  the destructor of a callable runs user code, it ends    *)
(* Any other event (crash, deadlock, hang) is not a behaviour.             *)
(***************************************************************************)
EXTENDS Signals, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACES)

VARIABLES tid, l

TraceInit == Init /\ tid \in DOMAIN Traces /\ l = 1

Evs == Traces[tid].ev
Ev == Evs[l]
More == l <= Len(Evs)

TCall == /\ More /\ Ev.e = "call"
         /\ Legal(Ev.o)
         /\ Call(Ev.t, Ev.o)
TInv == /\ More /\ Ev.e = "inv"
        /\ LET t == Ev.t IN
             /\ CanInv(t)
             /\ Rec(CurC(t)).tag = Ev.c
             /\ E(t).o.a = Ev.v
             /\ E(t).o.a + 1 = Ev.cv
             /\ E(t).ref = Ev.rf
             /\ Inv(t)
TFin == /\ More /\ Ev.e = "fin"
        /\ Fin(Ev.t, Ev.v, Ev.rf, Ev.x)
TDie == /\ More /\ Ev.e = "died"
        /\ Die(Ev.t, Ev.o)
TDtor == /\ More /\ Ev.e = "dtor"
         /\ Ev.c \in DOMAIN con
         /\ Dtor(Ev.t, Ev.c)
TDfin == /\ More /\ Ev.e = "dfin"
         /\ FinD(Ev.t)
TCopy == /\ More /\ Ev.e = "copy"
         /\ Copy(Ev.t)
TCfin == /\ More /\ Ev.e = "cfin"
         /\ FinC(Ev.t, Ev.x)
TRet == /\ More /\ Ev.e = "ret"
        /\ LET t == Ev.t IN
             /\ InLib(t)
             /\ Top(t).res = Ev.r
             /\ Top(t).x = Ev.x
             /\ "rf" \in DOMAIN Ev => Top(t).ref = Ev.rf
             /\ "lv" \in DOMAIN Ev => IF InDtor(t) THEN LiveTags \subseteq Ran(Ev.lv) ELSE LiveTags = Ran(Ev.lv)
             /\ Ret(t)

(***************************************************************************)
(* The search is pruned with what the trace says will happen: the driver   *)
(* annotates an event with nx (the position of the next event of each      *)
(* thread) and a call with q, qx (what it will return).  Steps that cannot *)
(* disable any other step are taken as soon as possible.                   *)
(***************************************************************************)
NextEv(t) == LET i == Ev.nx[t + 1] IN IF i = 0 THEN [e |-> "none"] ELSE Evs[i]
InvNext(t) == LET n == NextEv(t) IN IF n.e = "inv" THEN n.c = Rec(CurC(t)).tag ELSE FALSE

Local == {"seth", "res", "throw"}
EagerOp(t) == IF Doing(t) THEN M(t)[1] \in Local ELSE FALSE
MayExpire(t) == ~Alone(t) /\ CurC(t) > 0 /\ con[CurC(t)].on /\ ~ObjAlive(con[CurC(t)].obj)
EagerSkip(t) == CanSkip(t) /\ ~InvNext(t) /\ ~MayExpire(t)
Eager(t) == IF stk[t] = <<>> THEN FALSE
            ELSE IF EagerOp(t) THEN TRUE
            ELSE IF CanEnd(t) THEN TRUE
            ELSE IF EagerSkip(t) THEN TRUE
            ELSE CanObserve(t)
EagerStep(t) == IF EagerOp(t) THEN Step(t)
                ELSE IF CanEnd(t) THEN EmitEnd(t)
                ELSE IF EagerSkip(t) THEN Skip(t)
                ELSE Observe(t)

Other(t) == \/ Step(t)
            \/ Snapshot(t)
            \/ (Turn(t) /\ (NRep(E(t)) = 2 \/ MayExpire(t)) /\ Skip(t))
            \/ (Turn(t) /\ ~InvNext(t) /\ Expire(t))
            \/ (Turn(t) /\ Lock(t))
            \/ Release(t)

Expected(t) == LET f == stk'[t][Len(stk'[t])]
               IN f.k = "op" /\ f.todo = <<>> /\ "q" \in DOMAIN f.o
                    => f.res = f.o.q /\ f.x = f.o.qx

Visible == (TCall \/ TInv \/ TFin \/ TDie \/ TDtor \/ TDfin \/ TCopy \/ TCfin \/ TRet) /\ l' = l + 1 /\ UNCHANGED tid
Silent == \E t \in Threads : /\ InLib(t)
                             /\ Other(t)
                             /\ Expected(t)
                             /\ UNCHANGED <<tid, l>>

(* All of the trace is explained: report it (once) and forget the state. *)
Accept == /\ l = Len(Evs) + 1
          /\ PrintT(<<"accepted", tid>>)
          /\ l' = l + 1
          /\ sig' = [s \in SigVars |-> [alive |-> FALSE, list |-> <<>>]]
          /\ con' = <<>>
          /\ hdl' = [h \in HVars |-> 0]
          /\ ob' = [o \in Objs |-> "none"]
          /\ slt' = [v \in SVars |-> NullSlot]
          /\ stk' = [t \in Threads |-> <<>>]
          /\ UNCHANGED tid

TraceNext == IF ~More THEN Accept
             ELSE IF \E t \in Threads : Eager(t)
             THEN LET t == CHOOSE u \in Threads : Eager(u)
                  IN EagerStep(t) /\ Expected(t) /\ UNCHANGED <<tid, l>>
             ELSE Visible \/ Silent

TraceSpec == TraceInit /\ [][TraceNext]_<<vars, tid, l>>

(* Used to locate the first event that cannot be explained. *)
ProgressLog == PrintT(<<"at", tid, l>>)
=============================================================================
