------------------------------- MODULE Signals -------------------------------
(***************************************************************************)
(* Abstract specification of the signals & slots library                   *)
(* (jpvanoosten/signals, namespace sig).                                   *)
(*                                                                         *)
(* One thread = one call stack of frames.  Every public call is a Call     *)
(* step, a number of internal steps (its linearisation points) and a Ret   *)
(* step; an emission additionally performs Inv (the library starts the     *)
(* user's callable) and Fin (the callable returns or throws) steps.  While *)
(* a callable runs, its thread is again at user level and may perform any  *)
(* call (re-entrancy).  Calls are records (see Micro for the vocabulary).  *)
(*                                                                         *)
(* The module has no bound of its own: SignalsMC.tla closes it for         *)
(* exhaustive model checking, SignalsGen.tla generates behaviours for      *)
(* replay and SignalsTrace.tla validates traces recorded from the code.    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS Threads,      \* thread ids
          SigVars,      \* variables that can hold a signal
          HVars,        \* connection / scoped_connection / connection_blocker variables
          SVars,        \* variables that can hold a slot object (positive ints)
          Objs,         \* tracked objects (positive ints)
          Prune         \* leave out behaviours that differ in the order of internal steps only

VARIABLES sig,          \* SigVars -> [alive, list]: the slots connected to a signal, in order
          con,          \* connection id -> connection record
          hdl,          \* HVars -> connection id (0: refers to nothing)
          ob,           \* Objs -> "none" | "own" | "drop" | "dead"
          slt,          \* SVars -> slot record (nul: empty slot)
          stk           \* Threads -> stack of frames

vars == <<sig, con, hdl, ob, slt, stk>>

NONE == -1                              \* a disengaged result
Incomparable == {"inc", "in2", "trk"}          \* kinds of callable without operator==

NullSlot == [nul |-> TRUE, kind |-> "fun", key |-> 0, obj |-> 0,
             on |-> FALSE, blk |-> FALSE, tag |-> 0]

Init == /\ sig = [s \in SigVars |-> [alive |-> FALSE, list |-> <<>>]]
        /\ con = <<>>
        /\ hdl = [h \in HVars |-> 0]
        /\ ob = [o \in Objs |-> "none"]
        /\ slt = [v \in SVars |-> NullSlot]
        /\ stk = [t \in Threads |-> <<>>]

-----------------------------------------------------------------------------
(* Sequences and stacks *)

Ran(q) == {q[i] : i \in DOMAIN q}
IndexOf(q, x) == CHOOSE i \in DOMAIN q : q[i] = x
RECURSIVE Sel(_, _)
Sel(q, S) == IF q = <<>> THEN <<>>
             ELSE IF Head(q) \in S THEN <<Head(q)>> \o Sel(Tail(q), S) ELSE Sel(Tail(q), S)

Top(t) == stk[t][Len(stk[t])]
WithTop(t, f) == [stk EXCEPT ![t] = [@ EXCEPT ![Len(@)] = f]]
Push(t, f) == [stk EXCEPT ![t] = Append(@, f)]
Pop(t) == [stk EXCEPT ![t] = SubSeq(@, 1, Len(@) - 1)]

(* User code runs at the bottom of the stack, inside callables, and when   *)
(* callables are copied or destroyed.                                      *)
User(t) == IF stk[t] = <<>> THEN TRUE ELSE Top(t).k \in {"slot", "dtor", "copy"}
(* No other thread is inside a library call. *)
Alone(t) == \A u \in Threads \ {t} : stk[u] = <<>>
Calm(t) == Prune /\ Alone(t)

-----------------------------------------------------------------------------
(* Documented removal: the last slot takes the place of the removed one. *)
Without(q, c) ==
    IF c \notin Ran(q) THEN q
    ELSE LET n == Len(q)
             i == IndexOf(q, c)
             cut == SubSeq(q, 1, n - 1)
         IN IF i = n THEN cut ELSE [cut EXCEPT ![i] = q[n]]

(* Removing several slots in one call: one after another, in any order. *)
RECURSIVE WithoutSome(_, _)
WithoutSome(Q, S) == LET q == CHOOSE p \in Q : TRUE
                     IN IF S \cap Ran(q) = {} THEN Q
                        ELSE WithoutSome(UNION {{Without(p, c) : c \in S \cap Ran(p)} : p \in Q}, S)
WithoutAll(q, S) == WithoutSome({q}, S)

InList(c) == \E s \in SigVars : c \in Ran(sig[s].list)
InSnap(c) == \E t \in Threads : \E i \in DOMAIN stk[t] :
                stk[t][i].k = "emit" /\ c \in Ran(stk[t][i].snap)
(* The library still holds the callable of c. *)
Alive(c) == InList(c) \/ InSnap(c)

Rec(c) == IF c < 0 THEN slt[-c] ELSE con[c]

(* Some running invocation keeps tracked object o alive. *)
Strong(o) == \E t \in Threads : \E i \in DOMAIN stk[t] :
                LET f == stk[t][i]
                IN IF f.k = "emit" THEN IF f.lk THEN f.o2 = o ELSE f.hd = o
                   ELSE IF f.k = "slot" THEN f.lk /\ f.o2 = o ELSE FALSE
ObjAlive(o) == IF o = 0 THEN TRUE
               ELSE IF ob[o] = "own" THEN TRUE
               ELSE IF ob[o] = "drop" THEN Strong(o) ELSE FALSE
Undead == \E o \in Objs : ob[o] = "drop" /\ ~Strong(o)

Connected(r) == r.on /\ ObjAlive(r.obj)
B(x) == IF x THEN 1 ELSE 0

(* A callable is destroyed once the library does not hold it any more; if  *)
(* it owns a connection (own), that connection is then disconnected, and   *)
(* its destructor may make any call (dt).                                  *)
Reapable == {c \in DOMAIN con : (con[c].own # 0 \/ con[c].dt) /\ ~Alive(c)}
InDtor(t) == \E i \in DOMAIN stk[t] : stk[t][i].k = "dtor"

NewCon(o) == [sig |-> o.s, kind |-> o.kind, key |-> o.key, obj |-> o.o, tag |-> o.c,
              on |-> TRUE, blk |-> FALSE, own |-> IF o.g = "" THEN 0 ELSE hdl[o.g],
              dt |-> o.dt, wins |-> 0]

(* The callables that exist: one per connection that the library still     *)
(* holds and one per slot object (a tracked slot does not own its callable).*)
Held == UNION ({Ran(sig[s].list) : s \in SigVars}
               \cup UNION {{IF stk[t][i].k = "emit" THEN Ran(stk[t][i].snap) ELSE {} : i \in DOMAIN stk[t]}
                           : t \in Threads})
LiveTags == {con[c].tag : c \in {d \in Held : d > 0 /\ con[d].kind # "trk"}}
            \cup {slt[v].tag : v \in {w \in SVars : ~slt[w].nul /\ slt[w].kind # "trk"}}

-----------------------------------------------------------------------------
(* The internal steps a call consists of, as a function of the call record. *)

H(h) == hdl[h]
Mark(c) == IF c = 0 THEN <<>> ELSE << <<"mark", c>> >>

(* Copying the callable may run user code (cp), memory may run out (om).    *)
Has(o, f) == f \in DOMAIN o
Pre(o) == (IF Has(o, "cp") THEN IF o.cp THEN << <<"copy">> >> ELSE <<>> ELSE <<>>)
          \o (IF Has(o, "om") THEN << <<"oom">> >> ELSE <<>>)
PreS(o, r) == IF r.kind = "trk" THEN IF Has(o, "om") THEN << <<"oom">> >> ELSE <<>> ELSE Pre(o)

Micro(o) ==
  CASE o.op = "connect"  -> Pre(o) \o << <<"append", o.c>> >>
                            \o (IF o.g = "" THEN <<>> ELSE << <<"seth", o.g, 0>> >>)
                            \o << <<"seth", o.h, o.c>> >>
    [] o.op = "sconnect" -> Pre(o) \o << <<"append", o.c>> >>
                            \o (IF o.g = "" THEN <<>> ELSE << <<"seth", o.g, 0>> >>)
                            \o Mark(H(o.h)) \o << <<"seth", o.h, o.c>> >>
    [] o.op = "connectx" -> << <<"throw", -3>> >>
    [] o.op = "connslot" -> IF slt[o.v].nul THEN << <<"seth", o.h, 0>> >>
                            ELSE PreS(o, slt[o.v]) \o << <<"appends", o.c>>, <<"seth", o.h, o.c>> >>
    [] o.op = "disc"     -> << <<"markr", H(o.h)>> >>
    [] o.op = "erase"    -> Pre(o) \o << <<"erase", o.s, o.kind, o.key>> >>
    [] o.op = "erasesl"  -> IF slt[o.v].nul THEN << <<"res", 0>> >>
                            ELSE << <<"erase", o.s, slt[o.v].kind, slt[o.v].key>> >>
    [] o.op = "block"    -> << <<"blk", H(o.h), TRUE>> >>
    [] o.op = "unblock"  -> << <<"blk", H(o.h), FALSE>> >>
    [] o.op = "connected"-> << <<"rdcon", H(o.h)>> >>
    [] o.op = "blocked"  -> << <<"rdblk", H(o.h)>> >>
    [] o.op = "valid"    -> << <<"rdval", H(o.h)>> >>
    [] o.op = "probe"    -> << <<"probe", o.hs>> >>
    \* connection variables: h = g; h = std::move(g) (also release()); swap(h, g); h = {}
    [] o.op = "hcopy"    -> << <<"seth", o.h, H(o.g)>> >>
    [] o.op = "hmove"    -> IF o.h = o.g THEN <<>>
                            ELSE << <<"seth", o.h, H(o.g)>>, <<"seth", o.g, 0>> >>
    [] o.op = "hswap"    -> << <<"seth", o.h, H(o.g)>>, <<"seth", o.g, H(o.h)>> >>
    [] o.op = "hreset"   -> << <<"seth", o.h, 0>> >>
    \* scoped_connection variables: h = scoped_connection(g); h = std::move(g); destruction
    [] o.op = "scopy"    -> Mark(H(o.h)) \o << <<"seth", o.h, H(o.g)>> >>
    [] o.op = "smove"    -> Mark(H(o.h)) \o << <<"seth", o.h, H(o.g)>>, <<"seth", o.g, 0>> >>
    [] o.op = "sdel"     -> Mark(H(o.h)) \o << <<"seth", o.h, 0>> >>
    \* connection_blocker variables: h = g.blocker(); h = std::move(g); destruction
    [] o.op = "bnew"     -> << <<"blk", H(o.g), TRUE>> >>
                            \o (IF H(o.h) = H(o.g) THEN <<>> ELSE << <<"blk", H(o.h), FALSE>> >>)
                            \o << <<"seth", o.h, H(o.g)>> >>
    [] o.op = "bmove"    -> (IF H(o.h) = H(o.g) THEN <<>> ELSE << <<"blk", H(o.h), FALSE>> >>)
                            \o << <<"seth", o.h, H(o.g)>>, <<"seth", o.g, 0>> >>
    [] o.op = "bdel"     -> << <<"blk", H(o.h), FALSE>>, <<"seth", o.h, 0>> >>
    \* signal objects
    [] o.op = "newsig"   -> << <<"newsig", o.s>> >>
    [] o.op = "delsig"   -> << <<"delsig", o.s>> >>
    [] o.op = "mctor"    -> << <<"newsig", o.d>>, <<"movesig", o.d, o.s>> >>
    [] o.op = "massign"  -> IF o.d = o.s THEN <<>>
                            ELSE << <<"takesig", o.d, o.s>> >>
    \* tracked objects
    [] o.op = "newobj"   -> << <<"obj", o.o, "own">> >>
    [] o.op = "reset"    -> << <<"obj", o.o, "drop">> >>
    \* slot objects
    [] o.op = "slmk"     -> << <<"slset", o.v, [nul |-> FALSE, kind |-> o.kind, key |-> o.key,
                                  obj |-> o.o, on |-> TRUE, blk |-> FALSE, tag |-> o.c]>> >>
    [] o.op = "slnull"   -> << <<"slset", o.v, NullSlot>> >>
    [] o.op = "slcopy"   -> IF o.v = o.v2 THEN <<>>
                            ELSE (IF slt[o.v2].nul THEN <<>> ELSE PreS(o, slt[o.v2]))
                                 \o << <<"slset", o.v, IF slt[o.v2].nul THEN NullSlot
                                            ELSE [slt[o.v2] EXCEPT !.tag = IF slt[o.v2].kind = "trk" THEN @ ELSE o.c]>> >>
    [] o.op = "slmove"   -> IF o.v = o.v2 THEN <<>>
                            ELSE << <<"slset", o.v, slt[o.v2]>>, <<"slset", o.v2, NullSlot>> >>
    [] o.op = "slblock"  -> IF slt[o.v].nul THEN <<>>
                            ELSE << <<"slset", o.v, [slt[o.v] EXCEPT !.blk = TRUE]>> >>
    [] o.op = "slunblock"-> IF slt[o.v].nul THEN <<>>
                            ELSE << <<"slset", o.v, [slt[o.v] EXCEPT !.blk = FALSE]>> >>
    [] o.op = "slconn"   -> << <<"res", B(~slt[o.v].nul /\ Connected(slt[o.v]))>> >>
    [] o.op = "slblkd"   -> << <<"res", B(slt[o.v].blk)>> >>
    [] o.op = "slbool"   -> << <<"res", B(~slt[o.v].nul)>> >>
    [] o.op = "sldisc"   -> << <<"res", 0>> >>      \* not connected to any signal
    [] o.op = "sleq"     -> LET a == slt[o.v]
                                b == slt[o.v2]
                            IN IF a.nul \/ b.nul THEN << <<"res", B(a.nul /\ b.nul)>> >>
                               ELSE IF a.kind # b.kind THEN << <<"res", 0>> >>
                               ELSE IF a.kind \in Incomparable THEN << <<"throw", -1>> >>
                               ELSE << <<"res", B(a.key = b.key)>> >>

EmitFrame(o, ph, snap) ==
    [k |-> "emit", o |-> o, ph |-> ph, snap |-> snap, pos |-> 1, rep |-> 1,
     u |-> FALSE, n |-> FALSE, lk |-> FALSE, o2 |-> 0, hd |-> 0, acc |-> <<>>, ref |-> o.rf,
     todo |-> <<>>, res |-> <<>>, x |-> 0,
     off |-> {c \in DOMAIN con : ~con[c].on},       \* history: for the properties below
     all |-> snap, runs |-> <<>>]

Call(t, o) ==
    /\ User(t)
    /\ stk' = Push(t, CASE o.op = "emit" -> EmitFrame(o, "snap", <<>>)
                        [] o.op = "slcall" -> EmitFrame(o, "chk", IF slt[o.v].nul THEN <<>> ELSE <<-o.v>>)
                        [] OTHER -> [k |-> "op", o |-> o, todo |-> Micro(o), res |-> <<>>, x |-> 0])
    /\ UNCHANGED <<sig, con, hdl, ob, slt>>

-----------------------------------------------------------------------------
(* Internal steps of a call *)

InLib(t) == stk[t] # <<>> /\ Top(t).k \in {"op", "emit"}
Doing(t) == InLib(t) /\ Top(t).todo # <<>> /\ (Top(t).k = "emit" => Top(t).ph = "ret")
M(t) == Head(Top(t).todo)
Next1(t) == [Top(t) EXCEPT !.todo = Tail(@)]        \* the frame after its first step

DoAppend(t) ==
    /\ M(t)[1] = "append"
    /\ LET o == Top(t).o IN
         /\ con' = (o.c :> NewCon(o)) @@ con
         /\ sig' = [sig EXCEPT ![o.s].list = Append(@, o.c)]
    /\ stk' = WithTop(t, Next1(t))
    /\ UNCHANGED <<hdl, ob, slt>>

DoAppendSlot(t) ==
    /\ M(t)[1] = "appends"
    /\ LET o == Top(t).o
           r == slt[o.v]
       IN /\ con' = (o.c :> [sig |-> o.s, kind |-> r.kind, key |-> r.key, obj |-> r.obj,
                             tag |-> IF r.kind = "trk" THEN r.tag ELSE o.c,
                             on |-> r.on, blk |-> r.blk, own |-> 0, dt |-> FALSE, wins |-> 0]) @@ con
          /\ sig' = [sig EXCEPT ![o.s].list = Append(@, o.c)]
    /\ stk' = WithTop(t, Next1(t))
    /\ UNCHANGED <<hdl, ob, slt>>

(* A connection is disconnected by whoever first finds it connected; that  *)
(* call then also removes it from the signal.                              *)
DoMark(t) ==
    /\ M(t)[1] \in {"mark", "markr"}
    /\ LET c == M(t)[2]
           hit == c # 0 /\ con[c].on
           f == Next1(t)
           g == IF M(t)[1] = "markr" THEN [f EXCEPT !.res = <<B(hit)>>] ELSE f
       IN /\ con' = IF hit THEN [con EXCEPT ![c].on = FALSE, ![c].wins = @ + 1] ELSE con
          /\ stk' = WithTop(t, IF hit THEN [g EXCEPT !.todo = << <<"remove", c>> >> \o @] ELSE g)
    /\ UNCHANGED <<sig, hdl, ob, slt>>

DoRemove(t) ==
    /\ M(t)[1] = "remove"
    /\ LET c == M(t)[2] IN
         sig' = [s \in SigVars |-> [sig[s] EXCEPT !.list = Without(@, c)]]
    /\ stk' = WithTop(t, Next1(t))
    /\ UNCHANGED <<con, hdl, ob, slt>>

DoBlk(t) ==
    /\ M(t)[1] = "blk"
    /\ con' = IF M(t)[2] = 0 THEN con ELSE [con EXCEPT ![M(t)[2]].blk = M(t)[3]]
    /\ stk' = WithTop(t, Next1(t))
    /\ UNCHANGED <<sig, hdl, ob, slt>>

DoSetH(t) ==
    /\ M(t)[1] = "seth"
    /\ hdl' = [hdl EXCEPT ![M(t)[2]] = M(t)[3]]
    /\ stk' = WithTop(t, Next1(t))
    /\ UNCHANGED <<sig, con, ob, slt>>

DoRes(t) ==
    /\ M(t)[1] \in {"res", "throw"}
    /\ stk' = WithTop(t, IF M(t)[1] = "res" THEN [Next1(t) EXCEPT !.res = <<M(t)[2]>>]
                                            ELSE [Next1(t) EXCEPT !.x = M(t)[2]])
    /\ UNCHANGED <<sig, con, hdl, ob, slt>>

(* There may be too little memory for a new connection or slot. *)
DoOom(t) ==
    /\ M(t)[1] = "oom"
    /\ \/ stk' = WithTop(t, Next1(t))
       \/ stk' = WithTop(t, [Top(t) EXCEPT !.todo = <<>>, !.x = -4])
    /\ UNCHANGED <<sig, con, hdl, ob, slt>>

(* Another thread that is inside a call may keep a removed slot alive for  *)
(* a moment, which makes valid() and blocked() imprecise; so do callables  *)
(* that are destroyed one after another.                                   *)
DoRead(t) ==
    /\ M(t)[1] \in {"rdcon", "rdblk", "rdval"}
    /\ LET c == M(t)[2]
           vals == IF c = 0 THEN {FALSE}
                   ELSE CASE M(t)[1] = "rdcon" -> {Connected(con[c])}
                          [] M(t)[1] = "rdblk" -> {Alive(c) /\ con[c].blk}
                                                  \cup (IF Alone(t) /\ ~InDtor(t) THEN {} ELSE {con[c].blk})
                          [] OTHER -> {Alive(c)} \cup (IF Alone(t) /\ ~InDtor(t) THEN {} ELSE {TRUE})
       IN \E b \in vals : stk' = WithTop(t, [Next1(t) EXCEPT !.res = <<B(b)>>])
    /\ UNCHANGED <<sig, con, hdl, ob, slt>>

(* All there is to know about some connection variables at once (sequential only). *)
DoProbe(t) ==
    /\ M(t)[1] = "probe"
    /\ LET hs == M(t)[2]
           Info(c) == IF c = 0 THEN 0
                      ELSE B(Alive(c)) + 2 * B(Connected(con[c])) + 4 * B(Alive(c) /\ con[c].blk)
       IN stk' = WithTop(t, [Next1(t) EXCEPT !.res = [i \in DOMAIN hs |-> Info(hdl[hs[i]])]])
    /\ UNCHANGED <<sig, con, hdl, ob, slt>>

(* signal.disconnect(callable): all equal slots are selected at one moment. *)
DoErase(t) ==
    /\ M(t)[1] = "erase"
    /\ LET s == M(t)[2]
           kind == M(t)[3]
           same == {c \in Ran(sig[s].list) : con[c].kind = kind}
           sel == {c \in same : con[c].key = M(t)[4]}
       IN stk' = WithTop(t,
            IF kind \in Incomparable /\ same # {} THEN [Next1(t) EXCEPT !.x = -1]
            ELSE IF sel = {} THEN [Next1(t) EXCEPT !.res = <<0>>]
            ELSE [Next1(t) EXCEPT !.todo = << <<"emark", s, sel, sel, 0>> >> \o @])
    /\ UNCHANGED <<sig, con, hdl, ob, slt>>

DoEraseMark(t) ==
    /\ M(t)[1] = "emark"
    /\ LET m == M(t) IN
       IF m[3] # {}
       THEN \E c \in (IF Calm(t) THEN {CHOOSE x \in m[3] : TRUE} ELSE m[3]) :
              /\ con' = [con EXCEPT ![c].on = FALSE, ![c].wins = @ + B(con[c].on)]
              /\ stk' = WithTop(t, [Next1(t) EXCEPT !.todo =
                           << <<"emark", m[2], m[3] \ {c}, m[4], m[5] + B(con[c].on)>> >> \o @])
              /\ UNCHANGED sig
       ELSE /\ \E q \in WithoutAll(sig[m[2]].list, m[4]) : sig' = [sig EXCEPT ![m[2]].list = q]
            /\ stk' = WithTop(t, [Next1(t) EXCEPT !.res = <<m[5]>>])
            /\ UNCHANGED con
    /\ UNCHANGED <<hdl, ob, slt>>

Off(S) == [c \in DOMAIN con |-> IF c \in S THEN [con[c] EXCEPT !.on = FALSE] ELSE con[c]]

(* Slots are being erased from s. *)
Erasing(s) == \E u \in Threads : IF ~InLib(u) THEN FALSE ELSE \E i \in DOMAIN Top(u).todo :
                 Top(u).todo[i][1] = "emark" /\ Top(u).todo[i][2] = s
Moved(s, d) == [c \in DOMAIN con |-> IF c \in Ran(sig[d].list) THEN [con[c] EXCEPT !.sig = s] ELSE con[c]]
DoSig(t) ==
    /\ M(t)[1] \in {"newsig", "movesig"}
    /\ M(t)[1] = "movesig" => ~Erasing(M(t)[3])
    /\ LET s == M(t)[2] IN
       IF M(t)[1] = "newsig"
       THEN /\ sig' = [sig EXCEPT ![s] = [alive |-> TRUE, list |-> <<>>]]
            /\ con' = con
       ELSE /\ sig' = [sig EXCEPT ![s].list = sig[M(t)[3]].list, ![M(t)[3]].list = <<>>]
            /\ con' = Moved(s, M(t)[3])
    /\ stk' = WithTop(t, Next1(t))
    /\ UNCHANGED <<hdl, ob, slt>>

(* A signal loses all of its slots, and gets those of another one.  Other  *)
(* threads may see the former disconnected one by one.                     *)
DoSigEnd(t) ==
    /\ M(t)[1] \in {"delsig", "takesig"}
    /\ M(t)[1] = "takesig" => ~Erasing(M(t)[2]) /\ ~Erasing(M(t)[3])
    /\ LET s == M(t)[2]
           old == Ran(sig[s].list)
           Lost(f) == [c \in DOMAIN con |-> IF c \in old THEN [con[c] EXCEPT !.sig = "", !.on = IF Calm(t) THEN FALSE ELSE @] ELSE f[c]]
       IN /\ IF M(t)[1] = "delsig"
             THEN /\ sig' = [sig EXCEPT ![s] = [alive |-> FALSE, list |-> <<>>]]
                  /\ con' = Lost(con)
             ELSE /\ sig' = [sig EXCEPT ![s].list = sig[M(t)[3]].list, ![M(t)[3]].list = <<>>]
                  /\ con' = Lost(Moved(s, M(t)[3]))
          /\ stk' = WithTop(t, IF Calm(t) \/ old = {} THEN Next1(t) ELSE [Next1(t) EXCEPT !.todo = << <<"off", old>> >> \o @])
    /\ UNCHANGED <<hdl, ob, slt>>

DoOff(t) ==
    /\ M(t)[1] = "off"
    /\ \E c \in M(t)[2] :
         /\ con' = Off(IF Calm(t) THEN M(t)[2] ELSE {c})
         /\ stk' = WithTop(t, IF Calm(t) \/ M(t)[2] = {c} THEN Next1(t)
                              ELSE [Next1(t) EXCEPT !.todo = << <<"off", M(t)[2] \ {c}>> >> \o @])
    /\ UNCHANGED <<sig, hdl, ob, slt>>

DoObj(t) ==
    /\ M(t)[1] = "obj"
    /\ ob' = [ob EXCEPT ![M(t)[2]] = M(t)[3]]
    /\ stk' = WithTop(t, Next1(t))
    /\ UNCHANGED <<sig, con, hdl, slt>>

DoSlot(t) ==
    /\ M(t)[1] = "slset"
    /\ slt' = [slt EXCEPT ![M(t)[2]] = M(t)[3]]
    /\ stk' = WithTop(t, Next1(t))
    /\ UNCHANGED <<sig, con, hdl, ob>>

(* A callable that the library released is destroyed by the releasing call. *)
CanReap(t) ==
    /\ InLib(t)
    /\ Top(t).k = "emit" => Top(t).ph = "ret" /\ Top(t).hd = 0
    /\ Top(t).todo = <<>>
Reap(t) ==
    /\ CanReap(t)
    /\ \E c \in {d \in Reapable : ~con[d].dt} :
         /\ con' = [con EXCEPT ![c].own = 0]
         /\ stk' = WithTop(t, [Top(t) EXCEPT !.todo = << <<"mark", con[c].own>> >>])
    /\ UNCHANGED <<sig, hdl, ob, slt>>

(* Its destructor runs user code, which ends at some time. *)
Dtor(t, c) ==
    /\ CanReap(t)
    /\ c \in Reapable /\ con[c].dt
    /\ con' = [con EXCEPT ![c].dt = FALSE]
    /\ stk' = Push(t, [k |-> "dtor", c |-> c])
    /\ UNCHANGED <<sig, hdl, ob, slt>>
FinD(t) ==
    /\ stk[t] # <<>> /\ Top(t).k = "dtor"
    /\ stk' = Pop(t)
    /\ UNCHANGED <<sig, con, hdl, ob, slt>>

(* The callable is copied, which runs user code; it ends with an exception  *)
(* (x # 0), or the call goes on.                                           *)
Copy(t) ==
    /\ Doing(t)
    /\ M(t)[1] = "copy"
    /\ stk' = [stk EXCEPT ![t] = Append([@ EXCEPT ![Len(@)] = Next1(t)], [k |-> "copy"])]
    /\ UNCHANGED <<sig, con, hdl, ob, slt>>
FinC(t, x) ==
    /\ stk[t] # <<>> /\ Top(t).k = "copy"
    /\ LET n == Len(stk[t])
           f == stk[t][n - 1]
       IN stk' = [stk EXCEPT ![t] = Append(SubSeq(@, 1, n - 2),
                    IF x = 0 THEN f ELSE [f EXCEPT !.todo = <<>>, !.x = x])]
    /\ UNCHANGED <<sig, con, hdl, ob, slt>>

Step(t) == \/ /\ Doing(t)
              /\ \/ DoAppend(t) \/ DoAppendSlot(t) \/ DoMark(t) \/ DoRemove(t) \/ DoBlk(t)
                 \/ DoSetH(t) \/ DoRes(t) \/ DoOom(t) \/ DoRead(t) \/ DoProbe(t) \/ DoErase(t) \/ DoEraseMark(t)
                 \/ DoSig(t) \/ DoSigEnd(t) \/ DoOff(t) \/ DoObj(t) \/ DoSlot(t)
           \/ Reap(t)

-----------------------------------------------------------------------------
(* Emission.  How the combiner (o.m) walks the slots: "last", "collect",    *)
(* "first" (until there is a result), "twice" (each slot), "odd" (leaves   *)
(* out every second one), "none" (looks at nothing), "abort" (throws after *)
(* two slots).  Slots are invoked when the combiner asks for them only.    *)

Emitting(t) == stk[t] # <<>> /\ Top(t).k = "emit"
E(t) == Top(t)
CurC(t) == E(t).snap[E(t).pos]
Engaged(q) == SelectSeq(q, LAMBDA v : v # NONE)
NRep(f) == IF f.o.m = "twice" THEN 2 ELSE 1
Aborts(f) == f.o.m = "abort" /\ Len(f.acc) >= 2
AllDone(f) == IF f.pos > Len(f.snap) THEN TRUE
              ELSE CASE f.o.m = "first" -> Engaged(f.acc) # <<>>
                     [] f.o.m = "abort" -> Aborts(f)
                     [] f.o.m = "none" -> TRUE
                     [] OTHER -> FALSE
Combine(f) == LET e == Engaged(f.acc)
              IN IF f.o.m = "none" \/ Aborts(f) THEN <<>>
                 ELSE IF f.o.m \in {"collect", "odd", "abort"} THEN f.acc
                 ELSE IF e = <<>> THEN <<>>
                 ELSE IF f.o.m = "first" THEN <<Head(e)>> ELSE <<e[Len(e)]>>
(* The frame after the current slot produced v. *)
Produce(f, v) == [f EXCEPT !.acc = Append(@, v),
                           !.pos = IF f.rep < NRep(f) THEN @ ELSE IF f.o.m = "odd" THEN @ + 2 ELSE @ + 1,
                           !.rep = IF f.rep < NRep(f) THEN @ + 1 ELSE 1,
                           !.u = FALSE, !.n = FALSE, !.lk = FALSE, !.o2 = 0]

(* The emission works on the slots that are connected at this moment. *)
Snapshot(t) ==
    /\ Emitting(t) /\ E(t).ph = "snap"
    /\ stk' = WithTop(t, [E(t) EXCEPT !.ph = "chk", !.snap = sig[E(t).o.s].list,
                                        !.all = sig[E(t).o.s].list])
    /\ UNCHANGED <<sig, con, hdl, ob, slt>>

Turn(t) == Emitting(t) /\ E(t).ph = "chk" /\ E(t).hd = 0 /\ ~AllDone(E(t))

CanSkip(t) == Turn(t) /\ LET r == Rec(CurC(t)) IN ~(~r.blk /\ Connected(r))
Skip(t) ==
    /\ CanSkip(t)
    /\ stk' = WithTop(t, Produce(E(t), NONE))
    /\ UNCHANGED <<sig, con, hdl, ob, slt>>

(* A tracked slot may be found expired while its object is being destroyed *)
(* by another thread; it then is disconnected but stays in the signal.     *)
Expire(t) ==
    /\ Turn(t)
    /\ ~Alone(t)
    /\ CurC(t) > 0
    /\ LET c == CurC(t) IN
         /\ con[c].on
         /\ ~ObjAlive(con[c].obj)
         /\ con' = [con EXCEPT ![c].on = FALSE]
    /\ stk' = WithTop(t, Produce(E(t), NONE))
    /\ UNCHANGED <<sig, hdl, ob, slt>>

(* With other threads around, the state of the slot is observed piecemeal. *)
CanObserve(t) == /\ Turn(t)
                 /\ ~Calm(t)
                 /\ LET r == Rec(CurC(t)) IN IF ~E(t).u /\ ~r.blk THEN TRUE ELSE ~E(t).n /\ Connected(r)
Observe(t) ==
    /\ CanObserve(t)
    /\ LET r == Rec(CurC(t)) IN
         stk' = WithTop(t, [E(t) EXCEPT !.u = IF r.blk THEN @ ELSE TRUE,
                                        !.n = IF Connected(r) THEN TRUE ELSE @])
    /\ UNCHANGED <<sig, con, hdl, ob, slt>>

(* The tracked object is locked before the callable is invoked. *)
Lock(t) ==
    /\ Turn(t)
    /\ ~Alone(t)
    /\ LET r == Rec(CurC(t)) IN
         /\ r.obj # 0 /\ ~E(t).lk /\ ObjAlive(r.obj)
         /\ stk' = WithTop(t, [E(t) EXCEPT !.lk = TRUE, !.o2 = r.obj])
    /\ UNCHANGED <<sig, con, hdl, ob, slt>>

CanInv(t) ==
    /\ Turn(t)
    /\ LET r == Rec(CurC(t)) IN
         /\ ~E(t).u => ~r.blk
         /\ ~E(t).n => Connected(r)
         /\ ~E(t).lk => ObjAlive(r.obj)

(* The callable of the current slot is invoked. *)
Inv(t) ==
    /\ CanInv(t)
    /\ Alone(t) => ~Undead
    /\ LET c == CurC(t)
           r == Rec(c)
       IN stk' = [stk EXCEPT ![t] =
                    Append([@ EXCEPT ![Len(@)] = [E(t) EXCEPT !.lk = FALSE, !.o2 = 0,
                                                              !.runs = Append(@, c)]],
                           [k |-> "slot", c |-> c, lk |-> r.obj # 0, o2 |-> r.obj])]
    /\ UNCHANGED <<sig, con, hdl, ob, slt>>

(* The running callable returns v (x = 0) or throws exception x, and leaves *)
(* value rf in the argument that was passed by reference.                   *)
Fin(t, v, rf, x) ==
    /\ stk[t] # <<>> /\ Top(t).k = "slot"
    /\ LET n == Len(stk[t])
           f == [stk[t][n - 1] EXCEPT !.ref = rf, !.hd = Top(t).o2]
           void == f.o.w
       IN stk' = [stk EXCEPT ![t] = Append(SubSeq(@, 1, n - 2),
                    IF x = 0 THEN Produce(f, IF void THEN NONE ELSE v)
                    ELSE [f EXCEPT !.ph = "ret", !.x = x, !.snap = <<>>])]
    /\ UNCHANGED <<sig, con, hdl, ob, slt>>

(* After that the tracked object is given up. *)
CanRelease(t) == IF Emitting(t) THEN E(t).hd # 0 ELSE FALSE
Release(t) ==
    /\ CanRelease(t)
    /\ stk' = WithTop(t, [E(t) EXCEPT !.hd = 0])
    /\ UNCHANGED <<sig, con, hdl, ob, slt>>

CanEnd(t) == Emitting(t) /\ E(t).ph = "chk" /\ E(t).hd = 0 /\ AllDone(E(t))
EmitEnd(t) ==
    /\ CanEnd(t)
    /\ stk' = WithTop(t, [E(t) EXCEPT !.ph = "ret", !.snap = <<>>, !.res = Combine(E(t)),
                               !.x = IF Aborts(E(t)) THEN -6 ELSE 0])
    /\ UNCHANGED <<sig, con, hdl, ob, slt>>

-----------------------------------------------------------------------------
(* The last reference to a tracked object is gone: it is destroyed. *)
Die(t, o) ==
    /\ ob[o] = "drop" /\ ~Strong(o)
    /\ ob' = [ob EXCEPT ![o] = "dead"]
    /\ UNCHANGED <<sig, con, hdl, slt, stk>>

CanRet(t) ==
    /\ InLib(t)
    /\ Top(t).todo = <<>>
    /\ Top(t).k = "emit" => Top(t).ph = "ret" /\ Top(t).hd = 0
    /\ Alone(t) => ~Undead /\ (Reapable = {} \/ InDtor(t))

Ret(t) == /\ CanRet(t)
          /\ stk' = Pop(t)
          /\ UNCHANGED <<sig, con, hdl, ob, slt>>

Destroy(t) == \E c \in Reapable : Dtor(t, c)
Internal(t) == Step(t) \/ Snapshot(t) \/ Skip(t) \/ Expire(t) \/ Observe(t) \/ Lock(t) \/ Release(t) \/ EmitEnd(t)

-----------------------------------------------------------------------------
(* Which calls a (correct) program can make. *)

Running(v) == \E t \in Threads : \E i \in DOMAIN stk[t] :
                 stk[t][i].k = "emit" /\ -v \in Ran(stk[t][i].snap)

(* What a call works on while it copies a callable. *)
Copying == UNION {{stk[t][i - 1].o : i \in {j \in DOMAIN stk[t] : stk[t][j].k = "copy"}} : t \in Threads}
PinnedSig(s) == \E p \in Copying : IF Has(p, "s") THEN p.s = s ELSE FALSE
PinnedSl(v) == \E p \in Copying : IF Has(p, "v") THEN p.v = v \/ (IF Has(p, "v2") THEN p.v2 = v ELSE FALSE) ELSE FALSE

Legal(o) ==
  CASE o.op \in {"connect", "sconnect", "connectx"} ->
            sig[o.s].alive /\ (o.kind = "trk" => ob[o.o] = "own")
    [] o.op \in {"connslot", "erasesl", "erase", "emit"} -> sig[o.s].alive
    [] o.op = "delsig" -> sig[o.s].alive /\ ~PinnedSig(o.s)
    [] o.op = "newsig" -> ~sig[o.s].alive
    [] o.op = "mctor" -> ~sig[o.d].alive /\ sig[o.s].alive /\ ~PinnedSig(o.s)
    [] o.op = "massign" -> sig[o.d].alive /\ sig[o.s].alive /\ ~PinnedSig(o.s) /\ ~PinnedSig(o.d)
    [] o.op = "newobj" -> ob[o.o] = "none"
    [] o.op = "reset" -> ob[o.o] = "own"
    [] o.op \in {"slblock", "slunblock"} -> ~PinnedSl(o.v)
    [] o.op \in {"slmk", "slnull"} -> ~Running(o.v) /\ ~PinnedSl(o.v) /\ (o.op = "slmk" /\ o.kind = "trk" => ob[o.o] = "own")
    [] o.op = "slcopy" -> ~Running(o.v) /\ ~PinnedSl(o.v)
    [] o.op = "slmove" -> ~Running(o.v) /\ ~Running(o.v2) /\ ~PinnedSl(o.v) /\ ~PinnedSl(o.v2)
    [] OTHER -> TRUE

-----------------------------------------------------------------------------
(* Properties of the design (state predicates over all interleavings) *)

(* A connection is in at most one place of one signal, its own. *)
ListsOK ==
    /\ \A s \in SigVars :
         /\ Cardinality(Ran(sig[s].list)) = Len(sig[s].list)
         /\ \A c \in Ran(sig[s].list) : con[c].sig = s
         /\ ~sig[s].alive => sig[s].list = <<>>

(* A connected slot is in its signal: nothing is lost. *)
NoLostSlot == \A s \in SigVars : {c \in DOMAIN con : con[c].on /\ con[c].sig = s} \subseteq Ran(sig[s].list)

(* A slot that is in a signal but not connected is being disconnected. *)
Removing(c) == \E t \in Threads : \E i \in DOMAIN stk[t] :
    /\ stk[t][i].k \in {"op", "emit"}
    /\ \E j \in DOMAIN stk[t][i].todo :
         LET m == stk[t][i].todo[j]
         IN \/ m[1] = "remove" /\ m[2] = c
            \/ m[1] = "emark" /\ c \in m[4]
NoGhostSlot == \A s \in SigVars : \A c \in Ran(sig[s].list) : con[c].on \/ Removing(c) \/ ~ObjAlive(con[c].obj)

(* Every connection is reported as disconnected at most once. *)
OneWinner == \A c \in DOMAIN con : con[c].wins <= 1

(* A running callable was connected when its emission was called, and is   *)
(* part of the emission's slots; it is not invoked twice (except by a      *)
(* combiner that asks for it).                                             *)
RunsOK == \A t \in Threads : \A i \in DOMAIN stk[t] :
    stk[t][i].k = "slot" =>
        LET f == stk[t][i - 1]
            c == stk[t][i].c
        IN /\ f.k = "emit" /\ f.ph = "chk"
           /\ c \notin f.off
           /\ f.snap[f.pos] = c
           /\ \A j \in DOMAIN f.snap : f.snap[j] = c => j = f.pos

(* A tracked object is alive while one of its slots runs. *)
TrackedAlive == \A t \in Threads : \A i \in DOMAIN stk[t] :
    stk[t][i].k = "slot" /\ stk[t][i].o2 # 0 => ob[stk[t][i].o2] \in {"own", "drop"}

=============================================================================
