------------------------------ MODULE SignalsMC ------------------------------
(***************************************************************************)
(* Closes Signals with a bounded user: thread 0 first makes the calls of a *)
(* set-up, then every thread may make up to max[t] calls from its alphabet *)
(* ops[t], at any time, also while its slots run.  The model is given as   *)
(* JSON (environment variable MC), one model per property and aspect.      *)
(*                                                                         *)
(* hist records the decisions of the users when behaviours are generated   *)
(* for replay against the implementation (Cfg.hist).                       *)
(***************************************************************************)
EXTENDS Signals, Json, IOUtils

Cfg == JsonDeserialize(IOEnv.MC)
Ops(t) == Cfg.ops[t + 1]
Max(t) == Cfg.max[t + 1]

VARIABLES ip,           \* next call of the set-up
          n,            \* calls made so far, per thread
          nc,           \* connections made so far
          dis,          \* per frame: connections that were not invocable at some time since
          hist

mcvars == <<vars, ip, n, nc, dis, hist>>

MCInit == /\ Init
          /\ ip = 1
          /\ n = [t \in Threads |-> 0]
          /\ nc = 0
          /\ dis = [t \in Threads |-> <<>>]
          /\ hist = [t \in Threads |-> <<>>]

SetupDone == ip > Len(Cfg.setup)

Fill(o) == IF "c" \notin DOMAIN o THEN o
           ELSE [o EXCEPT !.c = IF o.op \in {"slmk", "slcopy"} THEN -(nc + 1) ELSE nc + 1]

Depth(t) == Cardinality({i \in DOMAIN stk[t] : stk[t][i].k = "slot"})

(* Connections that an emission would not invoke at the moment. *)
BadNow == {c \in DOMAIN con : con[c].blk \/ ~Connected(con[c])}

(* A variable that a call will assign is left alone while it copies a callable. *)
Used(o) == {o[f] : f \in {"h", "g"} \cap DOMAIN o}
Free(o) == \A p \in Copying : IF Has(p, "h") THEN p.h \notin Used(o) ELSE TRUE

DoCall(t, o) ==
    /\ Legal(o)
    /\ Free(o)
    /\ o.op \in {"emit", "slcall"} => Depth(t) < Cfg.depth
    /\ Call(t, Fill(o))
    /\ nc' = IF "c" \in DOMAIN o THEN nc + 1 ELSE nc
    /\ hist' = IF Cfg.hist THEN [hist EXCEPT ![t] = Append(@, o)] ELSE hist

SetupCall == /\ ~SetupDone /\ stk[0] = <<>>
             /\ DoCall(0, Cfg.setup[ip])
             /\ ip' = ip + 1
             /\ n' = n

UserCall(t) == /\ SetupDone
               /\ stk[0] = <<>> \/ t = 0
               \* programs for replay: the threads need not be interleaved
               /\ Cfg.conc \/ \A u \in Threads : u < t => stk[u] = <<>> /\ n[u] = Max(u)
               /\ n[t] < Max(t)
               /\ \E i \in DOMAIN Ops(t) : DoCall(t, Ops(t)[i])
               /\ n' = [n EXCEPT ![t] = @ + 1]
               /\ ip' = ip

End(t) == /\ stk[t] # <<>> /\ Top(t).k = "slot"
          /\ \E x \in Ran(Cfg.throws) :
               LET v == IF Top(t).c > 0 THEN Top(t).c ELSE 50
                   rf == stk[t][Len(stk[t]) - 1].ref
               IN /\ Fin(t, v, rf, x)
                  /\ hist' = IF Cfg.hist THEN [hist EXCEPT ![t] = Append(@,
                        [op |-> IF x = 0 THEN "fin" ELSE "throw", v |-> v, x |-> x])] ELSE hist
          /\ UNCHANGED <<ip, n, nc>>

EndD(t) == /\ FinD(t)
           /\ hist' = IF Cfg.hist THEN [hist EXCEPT ![t] = Append(@, [op |-> "fin", v |-> 0, x |-> 0])] ELSE hist
           /\ UNCHANGED <<ip, n, nc>>

EndC(t) == /\ stk[t] # <<>> /\ Top(t).k = "copy"
           /\ \E x \in Ran(Cfg.throws) :
                /\ FinC(t, x)
                /\ hist' = IF Cfg.hist THEN [hist EXCEPT ![t] = Append(@,
                      [op |-> IF x = 0 THEN "fin" ELSE "throw", v |-> 0, x |-> x])] ELSE hist
           /\ UNCHANGED <<ip, n, nc>>

Lib(t) == /\ Internal(t) \/ Destroy(t) \/ Copy(t) \/ Inv(t) \/ Ret(t) \/ \E o \in Objs : Die(t, o)
          /\ UNCHANGED <<ip, n, nc, hist>>

NextDis == dis' = [t \in Threads |-> [i \in DOMAIN stk'[t] |->
                     (IF i \in DOMAIN stk[t] THEN dis[t][i] ELSE BadNow) \cup BadNow']]

MCNext == /\ \/ SetupCall
             \/ \E t \in Threads : UserCall(t) \/ End(t) \/ EndD(t) \/ EndC(t) \/ Lib(t)
          /\ NextDis

MCSpec == MCInit /\ [][MCNext]_mcvars
FairSpec == MCSpec /\ \A t \in Threads : WF_mcvars((Lib(t) \/ End(t) \/ EndD(t) \/ EndC(t)) /\ NextDis)

-----------------------------------------------------------------------------
(* Properties of emissions *)

Occ(q, c) == Cardinality({i \in DOMAIN q : q[i] = c})
IsSubSeq(p, q) == \* p is q with some elements left out (elements of q are distinct)
    /\ Ran(p) \subseteq Ran(q)
    /\ \A i, j \in DOMAIN p : i < j => IndexOf(q, p[i]) <= IndexOf(q, p[j])

(* C01: a slot that was invocable from the start to the end of an emission *)
(* of its signal is invoked exactly once, all others at most once.         *)
ExactlyOnce ==
    \A t \in Threads : \A i \in DOMAIN stk[t] :
        LET f == stk[t][i] IN
        f.k = "emit" =>
          /\ \A c \in Ran(f.runs) : Occ(f.runs, c) <= NRep(f)
          /\ f.ph = "ret" /\ f.x = 0 /\ f.o.m \notin {"first", "odd", "none"} /\ f.o.op = "emit" =>
               \A c \in Ran(f.all) \ dis[t][i] : Occ(f.runs, c) = NRep(f)
          /\ f.ph # "snap" /\ f.o.op = "emit" =>
               \A c \in Ran(f.runs) : c \in Ran(f.all)

(* C02, C03: the order of the invocations is that of the snapshot. *)
RunsInOrder ==
    \A t \in Threads : \A i \in DOMAIN stk[t] :
        LET f == stk[t][i] IN f.k = "emit" => IsSubSeq(f.runs, f.all)

(* C11: the result is a function of what the slots produced. *)
ResultOK ==
    \A t \in Threads : \A i \in DOMAIN stk[t] :
        LET f == stk[t][i] IN
        f.k = "emit" /\ f.ph = "ret" /\ f.x = 0 /\ ~f.o.w /\ f.o.op = "emit" =>
          CASE f.o.m = "collect" -> Len(f.res) = Len(f.all) /\ \A j \in DOMAIN f.res :
                                      f.res[j] # NONE <=> f.all[j] \in Ran(f.runs)
            [] f.o.m = "abort" -> Len(f.res) = Len(f.all) /\ Len(f.all) < 2
            [] f.o.m = "odd" -> Len(f.res) = (Len(f.all) + 1) \div 2 /\ \A j \in DOMAIN f.res :
                                      f.res[j] # NONE <=> f.all[2 * j - 1] \in Ran(f.runs)
            [] f.o.m = "none" -> f.res = <<>> /\ f.runs = <<>>
            [] f.o.m = "first" -> Len(f.runs) <= 1 /\ (f.runs # <<>> => f.res = <<f.runs[1]>>)
            [] OTHER -> IF f.runs = <<>> THEN f.res = <<>> ELSE f.res = <<f.runs[Len(f.runs)]>>

(* C04, C05 (action properties) *)
OffForever == [][\A c \in DOMAIN con : ~con[c].on => ~con'[c].on]_mcvars
OneAtATime == [][\A t \in Threads :
                   stk[t] # <<>> /\ Top(t).k = "op" /\ Top(t).o.op \in {"disc", "sdel", "scopy"}
                   /\ Step(t) => Cardinality({c \in DOMAIN con : con[c].on /\ ~con'[c].on}) <= 1]_mcvars
(* C02: how the list of a signal may change. *)
OrderRule == [][\A s \in SigVars :
    LET q == sig[s].list
        r == sig'[s].list
    IN \/ r = q
       \/ r # <<>> /\ SubSeq(r, 1, Len(r) - 1) = q
       \/ r \in WithoutAll(q, Ran(q) \ Ran(r))
       \/ \E d \in SigVars : r = sig[d].list]_mcvars
(* C07: only block / unblock calls and blockers change the flag. *)
BlockRule == [][\A c \in DOMAIN con : con'[c].blk # con[c].blk =>
                  \E t \in Threads : stk[t] # <<>> /\ Top(t).k = "op"
                     /\ Top(t).o.op \in {"block", "unblock", "bnew", "bmove", "bdel"}]_mcvars
(* C10: nothing but its owners and running slots keeps an object alive. *)
ObjRule == \A o \in Objs : ob[o] = "drop" /\ (\A t \in Threads : stk[t] = <<>>) => ENABLED (\E t \in Threads : Die(t, o))

(* C13: every call returns. *)
Returns == \A t \in Threads : [](stk[t] # <<>> => <>(stk[t] = <<>>))

-----------------------------------------------------------------------------
(* Behaviours for replay: printed when nothing is left to do. *)
Quiet == /\ SetupDone
         /\ \A t \in Threads : stk[t] = <<>> /\ n[t] = Max(t)
Report == Quiet => PrintT("PROG " \o ToJson(hist))
=============================================================================
