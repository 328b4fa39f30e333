----------------------------- MODULE SignalsImpl -----------------------------
(***************************************************************************)
(* The algorithm that the library uses, step by step: a mutex per signal,  *)
(* copy-on-write versions of the list of slots (a version is modified in   *)
(* place if and only if nobody else holds it), each slot's index into the  *)
(* list, its atomic flags, its signal, and weak references from            *)
(* connections.  A signal that is assigned to locks both signals.          *)
(*                                                                         *)
(* The module is closed with a bounded user as SignalsMC is (environment   *)
(* variable MC) and checked to refine Signals: every interleaving of these *)
(* steps is a behaviour of the specification that traces of the code are   *)
(* validated against (property Refines, mapping below).                    *)
(*                                                                         *)
(* Bug selects a faulty variant of one step; TLC must find a violation for *)
(* each of them (negative controls).                                       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

CONSTANTS Threads, SigVars, HVars
Bug == IF "BUG" \in DOMAIN IOEnv THEN IOEnv.BUG ELSE "none"

Cfg == JsonDeserialize(IOEnv.MC)
Ops(t) == Cfg.ops[t + 1]
Max(t) == Cfg.max[t + 1]
NoT == 99

VARIABLES heap,         \* version -> list of slots
          cur,          \* signal -> its current version (0: the signal does not exist)
          mtx,          \* signal -> the thread that holds its mutex
          slots,        \* slot -> [sig, kind, key, idx, on, blk, wins] and gsig, the signal as of the last commit (ghost)
          hdl,          \* connection variables -> slot (0: none)
          st,           \* threads -> stack of frames
          pub, absl,    \* ghosts: slots that were added; the lists as of the last commit
          ip, n, nc     \* the user
vars == <<heap, cur, mtx, slots, hdl, st, pub, absl, ip, n, nc>>
libvars == <<heap, cur, mtx, slots, hdl, st, pub, absl>>
user == <<ip, n, nc>>

Init == /\ heap = <<>>
        /\ cur = [s \in SigVars |-> 0]
        /\ mtx = [s \in SigVars |-> NoT]
        /\ slots = <<>>
        /\ hdl = [h \in HVars |-> 0]
        /\ st = [t \in Threads |-> <<>>]
        /\ pub = {}
        /\ absl = [s \in SigVars |-> <<>>]
        /\ ip = 1 /\ n = [t \in Threads |-> 0] /\ nc = 0

-----------------------------------------------------------------------------
Ran(q) == {q[i] : i \in DOMAIN q}
B(x) == IF x THEN 1 ELSE 0
Top(t) == st[t][Len(st[t])]
WithTop(t, f) == [st EXCEPT ![t] = [@ EXCEPT ![Len(@)] = f]]
Push(t, f) == [st EXCEPT ![t] = Append(@, f)]
Pop(t) == [st EXCEPT ![t] = SubSeq(@, 1, Len(@) - 1)]
At(t, k, pc) == IF st[t] = <<>> THEN FALSE
                ELSE IF Top(t).k = "slot" THEN FALSE
                ELSE Top(t).o.op \in k /\ Top(t).pc = pc
User(t) == IF st[t] = <<>> THEN TRUE ELSE Top(t).k = "slot"
Frames == UNION {Ran(st[t]) : t \in Threads}

(* Who holds a version: the signal, and the emissions that work on it. *)
Holders(v) == Cardinality({s \in SigVars : cur[s] = v})
              + Cardinality({<<t, i>> \in Threads \X (1..8) :
                    IF i \in DOMAIN st[t] THEN st[t][i].k = "emit" /\ st[t][i].ver = v ELSE FALSE})
(* Who holds a slot: versions that are held, and calls that work on it. *)
Alive(c) == c # 0 /\ \/ \E v \in DOMAIN heap : Holders(v) > 0 /\ c \in Ran(heap[v])
                     \/ \E f \in Frames : f.k = "op" /\ f.held = c

(* Replaces position i of a list by its last element. *)
Cut(q, i) == LET m == SubSeq(q, 1, Len(q) - 1) IN IF i = Len(q) THEN m ELSE [m EXCEPT ![i] = q[Len(q)]]

Fill(o) == IF "c" \in DOMAIN o THEN [o EXCEPT !.c = nc + 1] ELSE o
C0(o) == IF o.op = "connect" THEN o.c ELSE IF "h" \in DOMAIN o THEN hdl[o.h] ELSE 0
Start(op) == CASE op \in {"connect", "erase", "emit"} -> IF Bug = "unlocked" /\ op = "emit" THEN "snap" ELSE "lock"
               [] op \in {"disc", "block", "unblock", "connected"} -> "weak"
               [] op = "massign" -> "lock1"
               [] op = "mctor" -> "new"
               [] op = "delsig" -> "take"
               [] OTHER -> "do"
NewFrame(o) ==
    IF o.op = "emit"
    THEN [k |-> "emit", o |-> o, pc |-> Start("emit"), ver |-> 0, pos |-> 1, acc |-> <<>>, res |-> <<>>, x |-> 0,
          u |-> FALSE, nn |-> FALSE, off |-> {c \in pub : ~slots[c].on}, all |-> <<>>, runs |-> <<>>]
    ELSE [k |-> "op", o |-> o, pc |-> Start(o.op), c |-> C0(o), held |-> IF o.op = "connect" THEN o.c ELSE 0,
          i |-> 1, sel |-> {}, all |-> {}, cnt |-> 0, res |-> <<>>, x |-> 0]

CallOf(t, o) ==
    /\ User(t)
    /\ st' = Push(t, NewFrame(o))
    /\ slots' = IF o.op = "connect"
                THEN (o.c :> [sig |-> o.s, kind |-> o.kind, key |-> o.key, idx |-> 0, on |-> TRUE, blk |-> FALSE, wins |-> 0, gsig |-> o.s]) @@ slots
                ELSE slots
    /\ UNCHANGED <<heap, cur, mtx, hdl, pub, absl>>

-----------------------------------------------------------------------------
Goto(t, pc) == WithTop(t, [Top(t) EXCEPT !.pc = pc])
Writers == {"connect", "disc", "erase"}
S(t) == IF Top(t).o.op = "disc" THEN slots[Top(t).c].sig ELSE Top(t).o.s

Lock(t) ==
    /\ At(t, Writers \cup {"emit"}, "lock")
    /\ mtx[S(t)] = NoT
    /\ mtx' = [mtx EXCEPT ![S(t)] = t]
    /\ st' = Goto(t, IF Top(t).o.op = "emit" THEN "snap" ELSE "det")
    /\ UNCHANGED <<heap, cur, slots, hdl, pub, absl>>

(* cow_ptr::detach *)
Fresh == IF DOMAIN heap = {} THEN 1 ELSE 1 + CHOOSE v \in DOMAIN heap : \A w \in DOMAIN heap : w <= v
Detach(t) ==
    /\ At(t, Writers, "det")
    /\ IF Holders(cur[S(t)]) > 1 /\ Bug # "nodetach"
       THEN /\ heap' = (Fresh :> heap[cur[S(t)]]) @@ heap
            /\ cur' = [cur EXCEPT ![S(t)] = Fresh]
       ELSE UNCHANGED <<heap, cur>>
    /\ LET f == Top(t) IN
       st' = WithTop(t, IF f.o.op # "erase" THEN [f EXCEPT !.pc = IF f.o.op = "connect" THEN "push" ELSE "rem"]
                        ELSE LET sel == {c \in Ran(heap[cur[S(t)]]) : slots[c].kind = f.o.kind /\ slots[c].key = f.o.key}
                             IN [f EXCEPT !.pc = "scan", !.sel = sel, !.all = sel, !.res = IF sel = {} THEN <<0>> ELSE <<>>])
    /\ UNCHANGED <<mtx, slots, hdl, pub, absl>>

Unlock(t) ==
    /\ At(t, Writers \cup {"emit"}, "unl")
    /\ mtx' = [mtx EXCEPT ![S(t)] = NoT]
    /\ st' = Goto(t, CASE Top(t).o.op = "connect" -> "asg" [] Top(t).o.op = "emit" -> "blk" [] OTHER -> "ret")
    /\ UNCHANGED <<heap, cur, slots, hdl, pub, absl>>

(* add_slot *)
PushSlot(t) ==
    /\ At(t, {"connect"}, "push")
    /\ LET s == S(t)
           c == Top(t).c
       IN /\ slots' = [slots EXCEPT ![c].idx = Len(heap[cur[s]]) + 1]
          /\ heap' = [heap EXCEPT ![cur[s]] = Append(@, c)]
          /\ absl' = [absl EXCEPT ![s] = Append(@, c)]
          /\ pub' = pub \cup {c}
    /\ st' = Goto(t, "unl")
    /\ UNCHANGED <<cur, mtx, hdl>>

Assign(t) ==
    /\ At(t, {"connect"}, "asg")
    /\ hdl' = [hdl EXCEPT ![Top(t).o.h] = Top(t).c]
    /\ st' = WithTop(t, [Top(t) EXCEPT !.pc = "ret", !.held = 0])
    /\ UNCHANGED <<heap, cur, mtx, slots, pub, absl>>

(* A connection is used: its weak reference is locked. *)
Weak(t) ==
    /\ At(t, {"disc", "block", "unblock", "connected"}, "weak")
    /\ st' = WithTop(t, [Top(t) EXCEPT !.pc = IF Top(t).o.op = "disc" THEN "exch" ELSE "use",
                                       !.held = IF Alive(Top(t).c) THEN Top(t).c ELSE 0])
    /\ UNCHANGED <<heap, cur, mtx, slots, hdl, pub, absl>>

(* slot::disconnect *)
Exchange(t) ==
    /\ At(t, {"disc"}, "exch")
    /\ LET f == Top(t)
           hit == f.held # 0 /\ slots[f.held].on
       IN IF Bug = "exchange" /\ hit /\ f.i = 1
          THEN /\ st' = WithTop(t, [f EXCEPT !.i = 2]) /\ slots' = slots       \* load ...
          ELSE IF Bug = "exchange" /\ f.i = 2
          THEN /\ slots' = [slots EXCEPT ![f.c].on = FALSE, ![f.c].wins = @ + 1]     \* ... and store
               /\ st' = WithTop(t, [f EXCEPT !.pc = "lock", !.res = <<1>>])
          ELSE /\ slots' = IF hit THEN [slots EXCEPT ![f.c].on = FALSE, ![f.c].wins = @ + 1] ELSE slots
               /\ st' = WithTop(t, IF hit THEN [f EXCEPT !.pc = "lock", !.res = <<1>>, !.i = slots[f.c].idx]
                                   ELSE [f EXCEPT !.pc = "ret", !.res = <<0>>, !.held = 0])
    /\ UNCHANGED <<heap, cur, mtx, hdl, pub, absl>>

(* remove_slot *)
Without(q, c) == IF c \in Ran(q) THEN Cut(q, CHOOSE i \in DOMAIN q : q[i] = c) ELSE q
Remove(t) ==
    /\ At(t, {"disc"}, "rem")
    /\ LET s == S(t)
           c == Top(t).c
           q == heap[cur[s]]
           i == IF Bug = "idxearly" THEN Top(t).i ELSE slots[c].idx
           hit == IF Bug = "noid" THEN i <= Len(q) ELSE i <= Len(q) /\ q[i] = c
       IN /\ heap' = IF hit THEN [heap EXCEPT ![cur[s]] = Cut(q, i)] ELSE heap
          /\ slots' = IF hit /\ Bug # "noidx" THEN [slots EXCEPT ![q[Len(q)]].idx = i] ELSE slots
          /\ absl' = [absl EXCEPT ![s] = IF hit THEN Cut(q, i) ELSE q]
    /\ st' = Goto(t, "unl")
    /\ UNCHANGED <<cur, mtx, hdl, pub>>

(* erase *)
Scan(t) ==
    /\ At(t, {"erase"}, "scan")
    /\ LET f == Top(t)
           s == S(t)
           q == heap[cur[s]]
       IN IF f.i > Len(q)
          THEN /\ st' = WithTop(t, [f EXCEPT !.pc = "unl", !.res = <<f.cnt>>])
               /\ absl' = [absl EXCEPT ![s] = q]
               /\ UNCHANGED <<heap, slots>>
          ELSE IF slots[q[f.i]].kind = f.o.kind /\ slots[q[f.i]].key = f.o.key
          THEN LET c == q[f.i]
                   marked == IF Bug = "nomark" THEN slots
                             ELSE [slots EXCEPT ![c].on = FALSE, ![c].wins = @ + B(slots[c].on)]
               IN /\ slots' = [marked EXCEPT ![q[Len(q)]].idx = f.i]
                  /\ heap' = [heap EXCEPT ![cur[s]] = Cut(q, f.i)]
                  /\ st' = WithTop(t, [f EXCEPT !.sel = @ \ {c}, !.cnt = @ + B(slots[c].on)])
                  /\ absl' = absl
          ELSE /\ st' = WithTop(t, [f EXCEPT !.i = @ + 1])
               /\ UNCHANGED <<heap, slots, absl>>
    /\ UNCHANGED <<cur, mtx, hdl, pub>>

(* block, unblock, connected through a connection *)
Use(t) ==
    /\ At(t, {"block", "unblock", "connected"}, "use")
    /\ LET f == Top(t) IN
         /\ slots' = IF f.o.op = "connected" \/ f.c = 0 THEN slots ELSE [slots EXCEPT ![f.c].blk = f.o.op = "block"]
         /\ st' = WithTop(t, [f EXCEPT !.pc = "ret", !.held = 0,
                                       !.res = IF f.o.op = "connected" THEN <<B(f.held # 0 /\ slots[f.c].on)>> ELSE <<>>])
    /\ UNCHANGED <<heap, cur, mtx, hdl, pub, absl>>

(* A signal is created. *)
SigOp(t) ==
    /\ At(t, {"newsig"}, "do") \/ At(t, {"mctor"}, "new")
    /\ LET s == IF Top(t).o.op = "newsig" THEN Top(t).o.s ELSE Top(t).o.d IN
       /\ heap' = (Fresh :> <<>>) @@ heap
       /\ cur' = [cur EXCEPT ![s] = Fresh]
       /\ absl' = [absl EXCEPT ![s] = <<>>]
    /\ st' = Goto(t, IF Top(t).o.op = "newsig" THEN "ret" ELSE "lock2")
    /\ UNCHANGED <<slots, mtx, hdl, pub>>

(* Move construction locks the source; assignment locks both signals, and  *)
(* starts again, with the other one, if it cannot get the second.          *)
Ends == {"massign", "mctor", "delsig"}
First(f) == IF Bug = "lockorder" THEN f.o.d ELSE IF f.i = 1 THEN f.o.d ELSE f.o.s
Second(f) == IF f.o.op = "mctor" THEN f.o.s ELSE IF First(f) = f.o.d THEN f.o.s ELSE f.o.d
Lock1(t) ==
    /\ At(t, {"massign"}, "lock1")
    /\ LET f == Top(t) IN
       IF f.o.d = f.o.s THEN mtx' = mtx /\ st' = Goto(t, "ret")
       ELSE /\ mtx[First(f)] = NoT
            /\ mtx' = [mtx EXCEPT ![First(f)] = t]
            /\ st' = Goto(t, IF Bug = "onelock" THEN "take" ELSE "lock2")
    /\ UNCHANGED <<heap, cur, slots, hdl, pub, absl>>
Lock2(t) ==
    /\ At(t, {"massign", "mctor"}, "lock2")
    /\ LET f == Top(t) IN
       IF mtx[Second(f)] = NoT
       THEN /\ mtx' = [mtx EXCEPT ![Second(f)] = t]
            /\ st' = Goto(t, "take")
       ELSE /\ f.o.op = "massign" /\ Bug # "lockorder"
            /\ mtx' = [mtx EXCEPT ![First(f)] = NoT]
            /\ st' = WithTop(t, [f EXCEPT !.pc = "lock1", !.i = 3 - f.i])
    /\ UNCHANGED <<heap, cur, slots, hdl, pub, absl>>

(* The call takes effect (ghosts only). *)
Take(t) ==
    /\ At(t, Ends, "take")
    /\ LET o == Top(t).o
           end == IF o.op = "delsig" THEN o.s ELSE o.d
           old == Ran(absl[end])
           new == IF o.op = "delsig" THEN <<>> ELSE absl[o.s]
       IN /\ absl' = [s \in SigVars |-> IF s = end THEN new ELSE IF s = o.s THEN <<>> ELSE absl[s]]
          /\ slots' = [c \in DOMAIN slots |-> IF c \in old THEN [slots[c] EXCEPT !.gsig = ""]
                                              ELSE IF c \in Ran(new) THEN [slots[c] EXCEPT !.gsig = end] ELSE slots[c]]
    /\ st' = WithTop(t, [Top(t) EXCEPT !.pc = "marks", !.i = 1, !.sel = {}])
    /\ UNCHANGED <<heap, cur, mtx, hdl, pub>>

(* disconnect_all *)
Marks(t) ==
    /\ At(t, Ends, "marks")
    /\ LET f == Top(t)
           q == heap[cur[IF f.o.op = "delsig" THEN f.o.s ELSE f.o.d]]
       IN IF f.i > Len(q) \/ (Bug = "nomarkold" /\ f.o.op = "massign")
          THEN /\ slots' = slots
               /\ st' = Goto(t, IF f.o.op = "delsig" THEN "free" ELSE "swap")
          ELSE /\ slots' = [slots EXCEPT ![q[f.i]].on = FALSE]
               /\ st' = WithTop(t, [f EXCEPT !.i = @ + 1, !.sel = @ \cup {q[f.i]}])
    /\ UNCHANGED <<heap, cur, mtx, hdl, pub, absl>>
Free(t) ==
    /\ At(t, {"delsig"}, "free")
    /\ cur' = [cur EXCEPT ![Top(t).o.s] = 0]
    /\ st' = Goto(t, "ret")
    /\ UNCHANGED <<heap, mtx, slots, hdl, pub, absl>>
SwapLists(t) ==
    /\ At(t, Ends, "swap")
    /\ LET o == Top(t).o IN
       /\ heap' = IF o.op = "massign" THEN (Fresh :> <<>>) @@ heap ELSE heap
       /\ cur' = [cur EXCEPT ![o.d] = cur[o.s], ![o.s] = IF o.op = "massign" THEN Fresh ELSE cur[o.d]]
    /\ st' = WithTop(t, [Top(t) EXCEPT !.pc = "adopt", !.i = 1])
    /\ UNCHANGED <<mtx, slots, hdl, pub, absl>>
Adopt(t) ==
    /\ At(t, Ends, "adopt")
    /\ LET f == Top(t)
           q == heap[cur[f.o.d]]
       IN IF f.i > Len(q) \/ Bug = "noadopt"
          THEN /\ slots' = slots
               /\ st' = WithTop(t, [f EXCEPT !.pc = "unl2", !.i = 1])
          ELSE /\ slots' = [slots EXCEPT ![q[f.i]].sig = f.o.d]
               /\ st' = WithTop(t, [f EXCEPT !.i = @ + 1])
    /\ UNCHANGED <<heap, cur, mtx, hdl, pub, absl>>
Unlock2(t) ==
    /\ At(t, Ends, "unl2")
    /\ LET mine == {s \in {Top(t).o.s, Top(t).o.d} : mtx[s] = t} IN
       IF mine = {} THEN mtx' = mtx /\ st' = Goto(t, "ret")
       ELSE /\ \E s \in mine : mtx' = [mtx EXCEPT ![s] = NoT]
            /\ st' = st
    /\ UNCHANGED <<heap, cur, slots, hdl, pub, absl>>
(* s is being destroyed. *)
Ending(s) == \E t \in Threads : IF st[t] = <<>> THEN FALSE
                                ELSE Top(t).k = "op" /\ Top(t).o.op = "delsig" /\ Top(t).o.s = s /\ Top(t).pc \in {"marks", "free"}
(* s is being move constructed; nobody else uses it yet. *)
Beginning(s) == \E t \in Threads : IF st[t] = <<>> THEN FALSE ELSE Top(t).k = "op" /\ Top(t).o.op = "mctor" /\ Top(t).o.d = s

(* emission *)
TakeSnapshot(t) ==
    /\ At(t, {"emit"}, "snap")
    /\ st' = WithTop(t, [Top(t) EXCEPT !.ver = cur[S(t)], !.all = absl[S(t)],
                                       !.pc = IF Bug \in {"unlocked", "hold"} THEN "blk" ELSE "unl"])
    /\ UNCHANGED <<heap, cur, mtx, slots, hdl, pub, absl>>

NextPos(f, v) == [f EXCEPT !.acc = Append(@, v), !.pos = @ + 1, !.u = FALSE, !.nn = FALSE, !.pc = "blk"]
CurS(f) == heap[f.ver][f.pos]
ReadBlocked(t) ==
    /\ At(t, {"emit"}, "blk")
    /\ LET f == Top(t) IN
       st' = WithTop(t, IF f.pos > Len(heap[f.ver]) THEN [f EXCEPT !.pc = "rel"]
                        ELSE IF slots[CurS(f)].blk THEN NextPos(f, -1)
                        ELSE [f EXCEPT !.pc = "con", !.u = TRUE, !.nn = slots[CurS(f)].on])
    /\ UNCHANGED <<heap, cur, mtx, slots, hdl, pub, absl>>
ReadConnected(t) ==
    /\ At(t, {"emit"}, "con")
    /\ LET f == Top(t) IN
       st' = WithTop(t, IF slots[CurS(f)].on THEN [f EXCEPT !.pc = "inv", !.nn = TRUE] ELSE NextPos(f, -1))
    /\ UNCHANGED <<heap, cur, mtx, slots, hdl, pub, absl>>
Invoke(t) ==
    /\ At(t, {"emit"}, "inv")
    /\ LET f == Top(t) IN
       st' = [st EXCEPT ![t] = Append([@ EXCEPT ![Len(@)] = [f EXCEPT !.runs = Append(@, CurS(f))]],
                                      [k |-> "slot", c |-> CurS(f)])]
    /\ UNCHANGED <<heap, cur, mtx, slots, hdl, pub, absl>>
Release(t) ==
    /\ At(t, {"emit"}, "rel")
    /\ LET f == Top(t)
           e == SelectSeq(f.acc, LAMBDA v : v # -1)
       IN st' = WithTop(t, [f EXCEPT !.pc = "ret", !.ver = 0, !.res = IF e = <<>> THEN <<>> ELSE <<e[Len(e)]>>])
    /\ mtx' = IF Bug = "hold" THEN [mtx EXCEPT ![S(t)] = NoT] ELSE mtx
    /\ UNCHANGED <<heap, cur, slots, hdl, pub, absl>>
(* The user's callable returns, or throws. *)
Fin(t, x) ==
    /\ st[t] # <<>> /\ Top(t).k = "slot"
    /\ LET m == Len(st[t])
           f == st[t][m - 1]
       IN st' = [st EXCEPT ![t] = Append(SubSeq(@, 1, m - 2),
                    IF x = 0 THEN NextPos(f, Top(t).c) ELSE [f EXCEPT !.pc = "ret", !.x = x, !.ver = 0])]
    /\ UNCHANGED <<heap, cur, mtx, slots, hdl, pub, absl>>

Ret(t) ==
    /\ IF st[t] = <<>> THEN FALSE ELSE Top(t).k # "slot" /\ Top(t).pc = "ret"
    /\ st' = Pop(t)
    /\ UNCHANGED <<heap, cur, mtx, slots, hdl, pub, absl>>

Lib(t) == Lock(t) \/ Detach(t) \/ Unlock(t) \/ PushSlot(t) \/ Assign(t) \/ Weak(t) \/ Exchange(t) \/ Remove(t) \/ Scan(t)
          \/ Use(t) \/ SigOp(t) \/ Lock1(t) \/ Lock2(t) \/ Take(t) \/ Marks(t) \/ Free(t) \/ SwapLists(t) \/ Adopt(t) \/ Unlock2(t)
          \/ TakeSnapshot(t) \/ ReadBlocked(t) \/ ReadConnected(t) \/ Invoke(t) \/ Release(t) \/ Ret(t)

-----------------------------------------------------------------------------
(* The user *)
SetupDone == ip > Len(Cfg.setup)
Depth(t) == Cardinality({i \in DOMAIN st[t] : st[t][i].k = "slot"})
Legal(o) == CASE o.op = "newsig" -> cur[o.s] = 0
              [] o.op \in {"connect", "erase", "emit", "delsig"} -> cur[o.s] # 0
              [] o.op = "massign" -> cur[o.s] # 0 /\ cur[o.d] # 0
              [] o.op = "mctor" -> cur[o.s] # 0 /\ cur[o.d] = 0
              [] OTHER -> TRUE
DoCall(t, o) == /\ Legal(o)
                /\ o.op = "emit" => Depth(t) < Cfg.depth
                /\ CallOf(t, Fill(o))
                /\ nc' = IF "c" \in DOMAIN o THEN nc + 1 ELSE nc
SetupCall == /\ ~SetupDone /\ st[0] = <<>>
             /\ DoCall(0, Cfg.setup[ip])
             /\ ip' = ip + 1 /\ n' = n
UserCall(t) == /\ SetupDone /\ (st[0] = <<>> \/ t = 0) /\ n[t] < Max(t)
               /\ \E i \in DOMAIN Ops(t) : DoCall(t, Ops(t)[i])
               /\ n' = [n EXCEPT ![t] = @ + 1] /\ ip' = ip
End(t) == (\E x \in Ran(Cfg.throws) : Fin(t, x)) /\ UNCHANGED user

Idle == SetupDone /\ \A t \in Threads : st[t] = <<>>      \* a user may stop making calls
Next == \/ SetupCall
        \/ \E t \in Threads : UserCall(t) \/ End(t) \/ (Lib(t) /\ UNCHANGED user)
        \/ Idle /\ UNCHANGED vars

Spec == Init /\ [][Next]_vars
FairSpec == Spec /\ \A t \in Threads : WF_vars((Lib(t) /\ UNCHANGED user) \/ End(t))

-----------------------------------------------------------------------------
(* Invariants of the algorithm *)
IndexOK == \A s \in SigVars : cur[s] # 0 /\ mtx[s] = NoT => \A i \in DOMAIN heap[cur[s]] : slots[heap[cur[s]][i]].idx = i
CommittedOK == \A s \in SigVars : mtx[s] = NoT /\ cur[s] # 0 /\ ~Ending(s) /\ ~Beginning(s) => absl[s] = heap[cur[s]]
NoLockInUserCode == \A s \in SigVars : mtx[s] # NoT => ~User(mtx[s])
Returns == \A t \in Threads : [](st[t] # <<>> => <>(st[t] = <<>>))

-----------------------------------------------------------------------------
(* Refinement: the state of Signals that corresponds to a state of the algorithm. *)
Todo(f) ==
  CASE f.o.op = "connect" -> (IF f.pc \in {"lock", "det", "push"} THEN << <<"append", f.c>> >> ELSE <<>>)
                             \o (IF f.pc = "ret" THEN <<>> ELSE << <<"seth", f.o.h, f.c>> >>)
    [] f.o.op = "disc" -> CASE f.pc \in {"weak", "exch"} -> << <<"markr", f.c>> >>
                            [] f.pc \in {"lock", "det", "rem"} -> << <<"remove", f.c>> >>
                            [] OTHER -> <<>>
    [] f.o.op = "erase" -> CASE f.pc \in {"lock", "det"} -> << <<"erase", f.o.s, f.o.kind, f.o.key>> >>
                             [] f.pc = "scan" /\ f.res = <<>> ->
                                  << <<"emark", f.o.s, f.sel, f.all, f.cnt>> >>
                             [] OTHER -> <<>>
    [] f.o.op = "block" -> IF f.pc = "ret" THEN <<>> ELSE << <<"blk", f.c, TRUE>> >>
    [] f.o.op = "unblock" -> IF f.pc = "ret" THEN <<>> ELSE << <<"blk", f.c, FALSE>> >>
    [] f.o.op = "connected" -> IF f.pc = "ret" THEN <<>> ELSE << <<"rdcon", f.c>> >>
    [] f.o.op = "newsig" -> IF f.pc = "ret" THEN <<>> ELSE << <<"newsig", f.o.s>> >>
    [] f.o.op = "mctor" -> (IF f.pc = "new" THEN << <<"newsig", f.o.d>> >> ELSE <<>>)
                           \o (IF f.pc \in {"new", "lock2", "take"} THEN << <<"movesig", f.o.d, f.o.s>> >> ELSE <<>>)
    [] f.o.op \in {"massign", "delsig"} ->
         IF f.o.op = "massign" /\ f.o.s = f.o.d THEN <<>>
         ELSE CASE f.pc \in {"lock1", "lock2"} -> << <<"takesig", f.o.d, f.o.s>> >>
                [] f.pc = "take" -> << IF f.o.op = "delsig" THEN <<"delsig", f.o.s>> ELSE <<"takesig", f.o.d, f.o.s>> >>
                [] f.pc = "marks" -> LET left == Ran(heap[cur[IF f.o.op = "delsig" THEN f.o.s ELSE f.o.d]]) \ f.sel
                                     IN IF left = {} THEN <<>> ELSE << <<"off", left>> >>
                [] OTHER -> <<>>

AbsFrame(f) ==
    IF f.k = "slot" THEN [k |-> "slot", c |-> f.c, lk |-> FALSE, o2 |-> 0]
    ELSE IF f.k = "op" THEN [k |-> "op", o |-> f.o, todo |-> Todo(f), res |-> f.res, x |-> f.x]
    ELSE [k |-> "emit", o |-> f.o, ph |-> IF f.pc \in {"lock", "snap"} THEN "snap" ELSE IF f.pc = "ret" THEN "ret" ELSE "chk",
          snap |-> IF f.ver = 0 THEN <<>> ELSE heap[f.ver], pos |-> f.pos, rep |-> 1, u |-> f.u, n |-> f.nn,
          lk |-> FALSE, o2 |-> 0, hd |-> 0, acc |-> f.acc, ref |-> f.o.rf, todo |-> <<>>, res |-> f.res, x |-> f.x,
          off |-> f.off, all |-> f.all, runs |-> f.runs]
asig == [s \in SigVars |-> [alive |-> cur[s] # 0 /\ ~Ending(s), list |-> absl[s]]]
acon == [c \in pub |-> [sig |-> slots[c].gsig, kind |-> slots[c].kind, key |-> slots[c].key, obj |-> 0, tag |-> c,
                        on |-> slots[c].on, blk |-> slots[c].blk, own |-> 0, dt |-> FALSE, wins |-> slots[c].wins]]
astk == [t \in Threads |-> [i \in DOMAIN st[t] |-> AbsFrame(st[t][i])]]
none == [o \in {} |-> 0]

A == INSTANCE Signals WITH Threads <- Threads, SigVars <- SigVars, HVars <- HVars, SVars <- {}, Objs <- {}, Prune <- FALSE,
                           sig <- asig, con <- acon, hdl <- hdl, ob <- none, slt <- none, stk <- astk

AbsNext == \E t \in Threads :
    \/ A!Internal(t) \/ A!Inv(t) \/ A!Ret(t)
    \/ \E x \in Ran(Cfg.throws) : IF st[t] = <<>> THEN FALSE
                                  ELSE IF Top(t).k # "slot" THEN FALSE
                                  ELSE A!Fin(t, Top(t).c, st[t][Len(st[t]) - 1].o.rf, x)
    \/ \E o \in Ran(Cfg.setup) \cup Ran(Ops(t)) : A!Legal(o) /\ A!Call(t, Fill(o))
Refines == A!Init /\ [][AbsNext]_<<asig, acon, hdl, astk>>

Invs == /\ A!ListsOK /\ A!NoLostSlot /\ A!NoGhostSlot /\ A!OneWinner /\ A!RunsOK
=============================================================================
