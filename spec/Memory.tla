------------------------------- MODULE Memory -------------------------------
(* Happens-before (ISO C++17 [intro.races]) by vector clocks: the accesses *)
(* of the threads to memory locations, and what synchronises them.  A data *)
(* race - two accesses to one location by different threads, at least one  *)
(* of which writes and at least one of which is not atomic, neither of     *)
(* which happens before the other - is an access that is not enabled.      *)
(*                                                                         *)
(* An operation has a thread t, a set X of locations and, if it is atomic, *)
(* an order o: "rlx", "acq", "rel", "ar".                                  *)
EXTENDS Naturals, FiniteSets
CONSTANT Threads
VARIABLES
  clk,  \* what happened before the thread's next operation: epochs of the threads
  pnd,  \* ... and would have, had its relaxed loads been acquire loads
  fen,  \* clock at the thread's last release fence
  syn,  \* location -> clock of the releases that a load of it reads from
  pr, pw, \* location -> epochs of the last plain read/write of each thread
  ar, aw  \* ... atomic
mvars == <<clk, pnd, fen, syn, pr, pw, ar, aw>>

Clocks == [Threads -> Nat]
Zero == [u \in Threads |-> 0]
Join(a, b) == [u \in Threads |-> IF a[u] >= b[u] THEN a[u] ELSE b[u]]
Leq(a, b) == \A u \in Threads : a[u] <= b[u]

MInit(locs) ==
  /\ clk = [t \in Threads |-> [u \in Threads |-> IF u = t THEN 1 ELSE 0]]
  /\ pnd = [t \in Threads |-> Zero] /\ fen = [t \in Threads |-> Zero]
  /\ syn = [x \in locs |-> Zero]
  /\ pr = [x \in locs |-> Zero] /\ pw = [x \in locs |-> Zero]
  /\ ar = [x \in locs |-> Zero] /\ aw = [x \in locs |-> Zero]

Acquires(o) == o \in {"acq", "ar"}
Releases(o) == o \in {"rel", "ar"}

RECURSIVE JoinAll(_, _, _)
JoinAll(c, f, X) == IF X = {} THEN c ELSE LET x == CHOOSE x \in X : TRUE IN JoinAll(Join(c, f[x]), f, X \ {x})

\* The accesses that must have happened before
MayRead(t, X) == \A x \in X : Leq(pw[x], clk[t]) /\ Leq(aw[x], clk[t])
MayWrite(t, X) == MayRead(t, X) /\ \A x \in X : Leq(pr[x], clk[t]) /\ Leq(ar[x], clk[t])
MayLoad(t, X) == \A x \in X : Leq(pw[x], clk[t])
MayStore(t, X) == MayLoad(t, X) /\ \A x \in X : Leq(pr[x], clk[t])
\* t's accesses of X are now those of its present epoch
Mark(f, t, X) == [x \in DOMAIN f |-> IF x \in X THEN [f[x] EXCEPT ![t] = clk[t][t]] ELSE f[x]]
Tick(c, t) == [c EXCEPT ![t] = @ + 1]

Read(t, X) == /\ MayRead(t, X)
              /\ pr' = Mark(pr, t, X)
              /\ UNCHANGED <<clk, pnd, fen, syn, pw, ar, aw>>
Write(t, X) == /\ MayWrite(t, X)
               /\ pw' = Mark(pw, t, X)
               /\ UNCHANGED <<clk, pnd, fen, syn, pr, ar, aw>>

Load(t, X, o) == /\ MayLoad(t, X)
                 /\ ar' = Mark(ar, t, X)
                 /\ pnd' = [pnd EXCEPT ![t] = JoinAll(@, syn, X)]
                 /\ clk' = IF Acquires(o) THEN [clk EXCEPT ![t] = JoinAll(@, syn, X)] ELSE clk
                 /\ UNCHANGED <<fen, syn, pr, pw, aw>>
Store(t, X, o) == /\ MayStore(t, X)
                  /\ aw' = Mark(aw, t, X)
                  /\ syn' = [x \in DOMAIN syn |-> IF x \in X THEN IF Releases(o) THEN clk[t] ELSE fen[t] ELSE syn[x]]
                  /\ clk' = [clk EXCEPT ![t] = Tick(@, t)]
                  /\ UNCHANGED <<pnd, fen, pr, pw, ar>>
\* A read-modify-write continues the release sequence.
Rmw(t, X, o) == /\ MayStore(t, X)
                /\ aw' = Mark(aw, t, X)
                /\ LET seen == JoinAll(clk[t], syn, X)
                       now == IF Acquires(o) THEN seen ELSE clk[t]
                   IN /\ pnd' = [pnd EXCEPT ![t] = Join(@, seen)]
                      /\ syn' = [x \in DOMAIN syn |-> IF x \in X THEN Join(syn[x], IF Releases(o) THEN now ELSE fen[t]) ELSE syn[x]]
                      /\ clk' = [clk EXCEPT ![t] = Tick(now, t)]
                /\ UNCHANGED <<fen, pr, pw, ar>>
Fence(t, o) == LET now == IF Acquires(o) THEN Join(clk[t], pnd[t]) ELSE clk[t]
               IN /\ clk' = [clk EXCEPT ![t] = IF Releases(o) THEN Tick(now, t) ELSE now]
                  /\ fen' = IF Releases(o) THEN [fen EXCEPT ![t] = now] ELSE fen
                  /\ UNCHANGED <<pnd, syn, pr, pw, ar, aw>>

\* Mutexes
Acquire(t, X) == /\ clk' = [clk EXCEPT ![t] = JoinAll(@, syn, X)]
                 /\ UNCHANGED <<pnd, fen, syn, pr, pw, ar, aw>>
Release(t, X) == /\ syn' = [x \in DOMAIN syn |-> IF x \in X THEN Join(syn[x], clk[t]) ELSE syn[x]]
                 /\ clk' = [clk EXCEPT ![t] = Tick(@, t)]
                 /\ UNCHANGED <<pnd, fen, pr, pw, ar, aw>>

\* Properties of the clocks: a thread knows its own epochs best.
ClocksOk == \A t, u \in Threads : /\ clk[t][u] <= clk[u][u]
                                  /\ pnd[t][u] <= clk[u][u] /\ fen[t][u] <= clk[u][u]
EpochsOk == \A x \in DOMAIN syn : \A u \in Threads : /\ syn[x][u] <= clk[u][u]
                                                      /\ pr[x][u] <= clk[u][u] /\ pw[x][u] <= clk[u][u]
                                                      /\ ar[x][u] <= clk[u][u] /\ aw[x][u] <= clk[u][u]
=============================================================================
