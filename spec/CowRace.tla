------------------------------ MODULE CowRace ------------------------------
(* How the threads share the list of slots of a signal and the flags of a  *)
(* slot, under the C++ memory model: every access is a step, atomic loads  *)
(* may return any value that is coherent (hist), and happens-before is     *)
(* that of Memory.  Refines, in the memory model, what SignalsImpl does in *)
(* sequentially consistent steps: an emission takes a reference to the     *)
(* list under the lock and reads the list without it; connect and          *)
(* disconnect write the list in place if nobody else refers to it, and     *)
(* else replace it by a copy.                                              *)
(*   NoRace: no access races.   Once: every list is destroyed once, after  *)
(* its last use, and none is lost.                                         *)
EXTENDS Memory, Sequences, TLC, Json, IOUtils

MC == JsonDeserialize(IOEnv.MC)
Bug == IOEnv.BUG
Prog(t) == MC.prog[t]           \* what the thread does: "emit", "write", "disc", "query"

Lists == 1 .. 6
Cnt(o) == o                     \* reference count: atomic
Dat(o) == 10 + o                \* contents
Ptr == 20                       \* which list the signal has
Con == 21                       \* flag of the slot: atomic
Idx == 22                       \* position of the slot: plain
Mx == 23                        \* mutex
Plain == {Dat(o) : o \in Lists} \cup {Ptr, Idx, Con}
Atomics == {Cnt(o) : o \in Lists} \cup {Con}
Locs == Plain \cup Atomics \cup {Mx}

VARIABLES pc, ip, v, c,         \* step, operation, list in use, value loaded
          ptr, next, owner,     \* which list the signal has, first unused list, owner of the mutex
          hist, seen,           \* stores to atomics in modification order; oldest one that a thread may still load
          gone, race
wvars == <<pc, ip, v, c, ptr, next, owner, hist, seen, gone, race>>
vars == <<mvars, wvars>>

Init == /\ MInit(Locs)
        /\ pc = [t \in Threads |-> "idle"] /\ ip = [t \in Threads |-> 1]
        /\ v = [t \in Threads |-> 0] /\ c = [t \in Threads |-> 0]
        /\ ptr = 1 /\ next = 2 /\ owner = 0
        /\ hist = [x \in Atomics |-> <<[val |-> IF x = Cnt(1) \/ x = Con THEN 1 ELSE 0, t |-> 0, e |-> 0, rel |-> Zero]>>]
        /\ seen = [t \in Threads |-> [x \in Atomics |-> 1]]
        /\ gone = {} /\ race = FALSE

\* ------------------------------------------------------------ accesses
PlainRead(t, x) == IF MayRead(t, {x}) THEN Read(t, {x}) /\ UNCHANGED race ELSE race' = TRUE /\ UNCHANGED mvars
PlainWrite(t, x) == IF MayWrite(t, {x}) THEN Write(t, {x}) /\ UNCHANGED race ELSE race' = TRUE /\ UNCHANGED mvars
\* The stores that a load may read from: not older than one it knows to be overwritten
Visible(t, x) == {i \in DOMAIN hist[x] : /\ i >= seen[t][x]
                                         /\ \A j \in DOMAIN hist[x] : j > i => ~(hist[x][j].t # 0 /\ hist[x][j].e <= clk[t][hist[x][j].t])}
ALoad(t, x, o, i) ==
  /\ MayLoad(t, {x}) /\ UNCHANGED race
  /\ seen' = [seen EXCEPT ![t][x] = i]
  /\ pnd' = [pnd EXCEPT ![t] = Join(@, hist[x][i].rel)]
  /\ clk' = IF Acquires(o) THEN [clk EXCEPT ![t] = Join(@, hist[x][i].rel)] ELSE clk
  /\ UNCHANGED <<fen, syn, pr, pw, ar, aw, hist>>
\* A read-modify-write reads the last store.
ARmw(t, x, o, new) ==
  /\ UNCHANGED race
  /\ LET last == hist[x][Len(hist[x])]
         now == IF Acquires(o) THEN Join(clk[t], last.rel) ELSE clk[t]
     IN /\ hist' = [hist EXCEPT ![x] = Append(@, [val |-> new, t |-> t, e |-> clk[t][t], rel |-> Join(last.rel, IF Releases(o) THEN now ELSE fen[t])])]
        /\ seen' = [seen EXCEPT ![t][x] = Len(hist[x]) + 1]
        /\ pnd' = [pnd EXCEPT ![t] = Join(@, last.rel)]
        /\ clk' = [clk EXCEPT ![t] = Tick(now, t)]
  /\ UNCHANGED <<fen, syn, pr, pw, ar, aw>>
Latest(x) == hist[x][Len(hist[x])].val

Goto(t, l) == pc' = [pc EXCEPT ![t] = l]
Lock(t) == owner = 0 /\ owner' = t /\ Acquire(t, {Mx}) /\ UNCHANGED race
Unlock(t) == owner' = 0 /\ Release(t, {Mx}) /\ UNCHANGED race
Same(S) == UNCHANGED S
DecOrder == IF Bug = "relaxed" THEN "rlx" ELSE IF Bug = "release" THEN "rel" ELSE "ar"

\* ------------------------------------------------------------ operations
Start(t) == /\ pc[t] = "idle" /\ ip[t] <= Len(Prog(t))
            /\ LET o == Prog(t)[ip[t]] IN
               Goto(t, IF o = "emit" THEN IF Bug = "unlocked" THEN "e_ptr" ELSE "e_lock"
                       ELSE IF o = "write" THEN "w_lock"
                       ELSE IF o = "disc" THEN "d_mark" ELSE "q_load")
            /\ Same(<<mvars, ip, v, c, ptr, next, owner, hist, seen, gone, race>>)
End(t) == Goto(t, "idle") /\ ip' = [ip EXCEPT ![t] = @ + 1]

\* Give up the reference to list v[t]; who has the last one destroys it.
Dec(t, l, free, cont) ==
  /\ pc[t] = l
  /\ ARmw(t, Cnt(v[t]), DecOrder, Latest(Cnt(v[t])) - 1)
  /\ IF Latest(Cnt(v[t])) = 1 THEN Goto(t, free) /\ Same(ip) ELSE IF cont = "idle" THEN End(t) ELSE Goto(t, cont) /\ Same(ip)
  /\ Same(<<v, c, ptr, next, owner, gone>>)
Free(t, l, cont) ==
  /\ pc[t] = l
  /\ PlainWrite(t, Dat(v[t]))
  /\ gone' = gone \cup {v[t]}
  /\ IF v[t] \in gone THEN Assert(FALSE, "destroyed twice") ELSE TRUE
  /\ IF cont = "idle" THEN End(t) ELSE Goto(t, cont) /\ Same(ip)
  /\ Same(<<v, c, ptr, next, owner, hist, seen>>)

Emit(t) ==
  \/ pc[t] = "e_lock" /\ Lock(t) /\ Goto(t, "e_ptr") /\ Same(<<ip, v, c, ptr, next, hist, seen, gone>>)
  \/ pc[t] = "e_ptr" /\ PlainRead(t, Ptr) /\ v' = [v EXCEPT ![t] = ptr] /\ Goto(t, "e_inc") /\ Same(<<ip, c, ptr, next, owner, hist, seen, gone>>)
  \/ pc[t] = "e_inc" /\ ARmw(t, Cnt(v[t]), "rlx", Latest(Cnt(v[t])) + 1) /\ Goto(t, IF Bug = "unlocked" THEN "e_read" ELSE "e_unlock")
     /\ Same(<<ip, v, c, ptr, next, owner, gone>>)
  \/ pc[t] = "e_unlock" /\ Unlock(t) /\ Goto(t, "e_read") /\ Same(<<ip, v, c, ptr, next, hist, seen, gone>>)
  \/ pc[t] = "e_read" /\ PlainRead(t, Dat(v[t])) /\ Goto(t, "e_flag") /\ Same(<<ip, v, c, ptr, next, owner, hist, seen, gone>>)
  \/ /\ pc[t] = "e_flag" /\ Goto(t, "e_dec")
     /\ IF Bug = "plainflag" THEN PlainRead(t, Con) /\ Same(<<hist, seen>>) ELSE \E i \in Visible(t, Con) : ALoad(t, Con, "ar", i)
     /\ Same(<<ip, v, c, ptr, next, owner, gone>>)
  \/ Dec(t, "e_dec", "e_free", "idle")
  \/ Free(t, "e_free", "idle")

Change(t) ==
  \/ /\ pc[t] = "d_mark" /\ Goto(t, IF Bug = "idxearly" THEN "d_idx" ELSE "w_lock")
     /\ IF Bug = "plainflag" THEN PlainWrite(t, Con) /\ Same(<<hist, seen>>) ELSE ARmw(t, Con, "ar", 0)
     /\ Same(<<ip, v, c, ptr, next, owner, gone>>)
  \/ pc[t] = "d_idx" /\ PlainRead(t, Idx) /\ Goto(t, "w_lock") /\ Same(<<ip, v, c, ptr, next, owner, hist, seen, gone>>)
  \/ pc[t] = "w_lock" /\ Lock(t) /\ Goto(t, "w_ptr") /\ Same(<<ip, v, c, ptr, next, hist, seen, gone>>)
  \/ pc[t] = "w_ptr" /\ PlainRead(t, Ptr) /\ v' = [v EXCEPT ![t] = ptr] /\ Goto(t, "w_load") /\ Same(<<ip, c, ptr, next, owner, hist, seen, gone>>)
  \/ /\ pc[t] = "w_load"
     /\ \E i \in Visible(t, Cnt(v[t])) :
          /\ ALoad(t, Cnt(v[t]), "rlx", i)
          /\ c' = [c EXCEPT ![t] = hist[Cnt(v[t])][i].val]
     /\ Goto(t, IF Bug = "nofence" THEN "w_go" ELSE "w_fence")
     /\ Same(<<ip, v, ptr, next, owner, gone>>)
  \/ pc[t] = "w_fence" /\ Fence(t, "acq") /\ Goto(t, "w_go") /\ Same(<<ip, v, c, ptr, next, owner, hist, seen, gone, race>>)
  \/ /\ pc[t] = "w_go"
     /\ Goto(t, IF c[t] > 1 /\ Bug # "inplace" THEN "w_copy" ELSE "w_write")
     /\ Same(<<mvars, ip, v, c, ptr, next, owner, hist, seen, gone, race>>)
  \/ pc[t] = "w_write" /\ PlainWrite(t, Dat(v[t])) /\ Goto(t, "w_idx") /\ Same(<<ip, v, c, ptr, next, owner, hist, seen, gone>>)
  \/ pc[t] = "w_copy" /\ PlainRead(t, Dat(v[t])) /\ Goto(t, "w_new") /\ Same(<<ip, v, c, ptr, next, owner, hist, seen, gone>>)
  \/ /\ pc[t] = "w_new" /\ PlainWrite(t, Dat(next)) /\ Goto(t, "w_set")
     /\ hist' = [hist EXCEPT ![Cnt(next)] = <<[val |-> 1, t |-> 0, e |-> 0, rel |-> Zero]>>]
     /\ c' = [c EXCEPT ![t] = next] /\ next' = next + 1
     /\ Same(<<ip, v, ptr, owner, seen, gone>>)
  \/ pc[t] = "w_set" /\ PlainWrite(t, Ptr) /\ ptr' = c[t] /\ Goto(t, "w_dec") /\ Same(<<ip, v, c, next, owner, hist, seen, gone>>)
  \/ Dec(t, "w_dec", "w_free", "w_idx")
  \/ Free(t, "w_free", "w_idx")
  \/ pc[t] = "w_idx" /\ PlainWrite(t, Idx) /\ Goto(t, "w_unlock") /\ Same(<<ip, v, c, ptr, next, owner, hist, seen, gone>>)
  \/ pc[t] = "w_unlock" /\ Unlock(t) /\ End(t) /\ Same(<<v, c, ptr, next, hist, seen, gone>>)

Query(t) == /\ pc[t] = "q_load" /\ End(t)
            /\ IF Bug = "plainflag" THEN PlainRead(t, Con) /\ Same(<<hist, seen>>) ELSE \E i \in Visible(t, Con) : ALoad(t, Con, "ar", i)
            /\ Same(<<v, c, ptr, next, owner, gone>>)

AllDone == \A t \in Threads : pc[t] = "idle" /\ ip[t] > Len(Prog(t))
Next == (\E t \in Threads : Start(t) \/ Emit(t) \/ Change(t) \/ Query(t)) \/ (AllDone /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars

NoRace == ~race
\* The list of the signal exists; at the end it is the only one, with one reference.
Once == /\ ptr \notin gone
        /\ AllDone => gone = (1 .. next - 1) \ {ptr} /\ Latest(Cnt(ptr)) = 1
\* A thread uses existing lists only.
Alive == \A t \in Threads : pc[t] \in {"e_read", "e_flag", "w_write", "w_copy"} => v[t] \notin gone
Clocks_ == ClocksOk /\ EpochsOk
=============================================================================
