------------------------------ MODULE Callable ------------------------------
(***************************************************************************)
(* What a slot calls.  Targets are accumulators: user objects 1 (of the    *)
(* base class) and 2 (of the derived class), a global one (0) used by free *)
(* functions, and the private state a slot owns.  A callable of kind k     *)
(* adds its argument to its target and returns Code(k) + the new value, so *)
(* the result tells what was called on which object.                       *)
(*                                                                         *)
(* A slot is [k, d, t, p]: kind, how the object was designated, t the user *)
(* object it acts on (-1: its private state p).                            *)
(***************************************************************************)
EXTENDS Naturals, Integers, FiniteSets, Sequences

CONSTANTS SVars, Args
VARIABLES acc,      \* 0..2: accumulators
          sl,       \* slot variables: a slot or None
          con       \* slots connected to the signal, in order
vars == <<acc, sl, con>>

None == [k |-> "none", d |-> "", t |-> 0, p |-> 0]
Objs == {1, 2}
Init == acc = [i \in 0..2 |-> 0] /\ sl = [s \in SVars |-> None] /\ con = <<>>

\* Kinds without an object, with a designated user object, with private state.
Free == {"free", "fptr", "nlam", "nfree", "rfree", "emp"}   \* emp: a class without members and without ==
Bound == {"lam", "lamr", "funref", "bindp", "bindr", "bindsp", "stdref", "stdlam", "glam", "chain", "rlam", "rref", "rstd"}
Own == {"lamv", "fun", "funrv", "cfun", "stdfun", "bindv", "bindlam", "ovl", "rfun"}
\* Pointers to members together with an object.
Mem == {"add", "virt", "peek", "inh", "noex", "lval", "vconst", "radd", "rpeek"}
Data == {"pmd", "pmdinh"}
Const == {"peek", "vconst", "pmd", "pmdinh", "rpeek"}    \* do not modify their object
\* Those that return a reference to the accumulator of their target.
RefK == {"radd", "rpeek", "rfree", "rlam", "rref", "rstd", "rfun"}
UserD == {"ptr", "cptr", "ref", "cref", "sp", "csp", "wp", "mysp", "fancy", "lvptr"}
ConstD == {"cptr", "cref", "csp"}
PrivD == {"val", "valrv"}

\* Signatures: I int(int)  V void(int)  L long(short)  D int(double)  Z int()  F float(int)
\* O int(Obj&, int), P int(Obj*, int): the object is an argument of the call.
\* W int(int, long, int)  M int(Mo)  N void(Mo)  R int(Mo&&) where Mo can be moved only (one slot can have it).
\* Q int&(int) with the default combiner (an emission returns what the last slot refers to), S int&(), T const int&()
Sigs == {"I", "V", "L", "D", "Z", "F", "W", "M", "N", "R", "O", "P", "Q", "S", "T"}
RefSig(g) == g \in {"Q", "S", "T"}
Single(g) == g \in {"M", "N", "R"} => con = <<>>
Kinds(g) == CASE g \in {"O", "P"} -> Mem \ ({"inh"} \cup RefK)
              [] g = "Q" -> RefK \ {"rpeek"}
              [] g = "S" -> (RefK \ {"rpeek"}) \cup Data
              [] g = "T" -> RefK \cup Data
              [] g = "Z" -> (Mem \cup Data \cup Bound \cup Own \cup Free) \ {"chain"}
              [] g = "V" -> Mem \cup Bound \cup Own \cup Free
              [] g = "I" -> (Mem \cup Bound \cup Own \cup Free) \ {"chain"}
              [] OTHER -> (Mem \cup Bound \cup Own \cup Free) \ ({"chain"} \cup RefK)
Dess(g, k) == IF g \in {"O", "P"} THEN {"arg"}
              ELSE IF g = "S" /\ k \in Data THEN (UserD \ ConstD) \cup PrivD
              ELSE IF k \in Mem \cup Data THEN UserD \cup PrivD ELSE {"none"}
OkDes(k, d, i) == /\ d \in ConstD => k \in Const
                  /\ (k \in Free \/ d = "arg") => i = 1
                  /\ k \in {"inh", "pmdinh"} => i = 2   \* a member of the base, used through a pointer to the derived class

Code(k, i) == CASE k \in {"virt", "vconst"} -> IF i = 2 THEN 2000 ELSE 1000
                [] k \in {"add", "inh"} -> 3000
                [] k = "peek" -> 4000
                [] k = "noex" -> 5000
                [] k = "lval" -> 6000
                [] k \in {"pmd", "pmdinh"} \cup RefK -> 0
                [] k \in Free -> 7000
                [] k \in {"bindp", "bindr", "bindsp", "bindv"} -> 3000
                [] OTHER -> 8000

Make(g, k, d, i) == IF k \in Free THEN [k |-> k, d |-> d, t |-> 0, p |-> 0]
                    ELSE IF d = "arg" THEN [k |-> k, d |-> d, t |-> -2, p |-> 0]
                    ELSE IF k \in Own \/ d \in PrivD THEN [k |-> k, d |-> d, t |-> -1, p |-> i * 10000 + acc[i]]
                    ELSE [k |-> k, d |-> d, t |-> i, p |-> 0]

\* Calling slot s with argument a (and object i if objects are arguments): <<accumulators, slot, result>>
\* The private state remembers the dynamic type of what was copied in its ten-thousands.
Add(s, a, g) == IF s.k \in Const THEN 0 ELSE IF g \in {"Z", "S", "T"} THEN 1 ELSE a
\* A reference is observed as the accumulator it refers to (9: none that the user knows) and its value.
Lead(g, s, t) == IF ~RefSig(g) THEN Code(s.k, IF t = -1 THEN s.p \div 10000 ELSE t) ELSE 100000 * (IF t = -1 THEN 9 ELSE t)
Invoke(g, ac, s, a, i) ==
    LET n == Add(s, a, g)
        t == IF s.t = -2 THEN i ELSE s.t
    IN IF t = -1 THEN <<ac, [s EXCEPT !.p = @ + n], Lead(g, s, t) + (s.p % 10000) + n>>
       ELSE <<[ac EXCEPT ![t] = @ + n], s, Lead(g, s, t) + ac[t] + n>>

---------------------------------------------------------------------------
\* Equality of slots.  Slots are equal if their callables have the same type and compare equal; types
\* without == cannot be compared.  User objects (and reference wrappers of them) compare by their accumulators.
\* The type of a pointer to a member, which member it is, the static type of the object it is used with.
MemT(k) == CASE k \in {"add", "virt", "inh"} -> "M" [] k \in {"peek", "vconst"} -> "C" [] k = "noex" -> "N" [] k = "lval" -> "L" [] k = "radd" -> "R" [] k = "rpeek" -> "RC" [] OTHER -> "D"
MemF(k) == CASE k = "inh" -> "add" [] k = "pmdinh" -> "pmd" [] OTHER -> k
Stat(k) == IF k \in {"inh", "pmdinh"} THEN "Der" ELSE "Base"
Dyn(s) == IF s.p \div 10000 = 2 THEN "Der" ELSE "Base"
ObjT(s) == CASE s.d \in {"ptr", "lvptr"} -> <<"ptr", Stat(s.k)>>
             [] s.d \in {"sp", "wp"} -> <<"weak", Stat(s.k)>>
             [] s.d = "mysp" -> <<"weak", "Base">>
             [] s.d = "ref" -> <<"ref", Stat(s.k)>>
             [] s.d \in PrivD -> <<"val", Dyn(s)>>
             [] OTHER -> <<s.d, "">>
Type(s) == CASE s.d = "arg" -> <<"mem", MemT(s.k)>>
             [] s.d = "none" -> <<"fun", CASE s.k \in {"free", "fptr"} -> "fp" [] s.k \in {"stdfun", "stdref", "stdlam"} -> "std"
                                          [] s.k = "fun" -> Dyn(s) [] s.k \in {"funrv", "cfun"} -> "Base" [] OTHER -> s.k>>
             [] OTHER -> <<"mem", MemT(s.k), ObjT(s)>>
Comparable(s) == CASE s.d = "arg" -> TRUE
                   [] s.d = "none" -> s.k \in {"free", "fptr", "nfree", "rfree", "nlam", "fun", "funrv", "cfun", "funref"}
                   [] OTHER -> s.d \in {"ptr", "lvptr", "cptr", "ref", "cref", "val", "valrv"}
Val(s) == IF s.t = -1 THEN s.p % 10000 ELSE IF s.d \in {"ptr", "lvptr", "cptr"} THEN s.t ELSE IF s.t < 0 THEN 0 ELSE IF s.k \in Free THEN 0 ELSE acc[s.t]
Mem1(s) == IF s.d = "none" THEN "" ELSE MemF(s.k)
\* The possible outcomes of s1 == s2: 1, 0, or -9 (not_comparable).  If the member differs it need not matter that the objects cannot be compared.
Cmp(s1, s2) == IF s1 = None \/ s2 = None THEN {IF s1 = s2 THEN 1 ELSE 0}
               ELSE IF Type(s1) # Type(s2) THEN {0}
               ELSE IF ~Comparable(s1) THEN IF Mem1(s1) = Mem1(s2) THEN {-9} ELSE {-9, 0}
               ELSE {IF Mem1(s1) = Mem1(s2) /\ Val(s1) = Val(s2) THEN 1 ELSE 0}
\* Disconnecting what is equal to s: how many, or -9 and nothing happens.
Same(s) == {j \in DOMAIN con : Cmp(con[j], s) = {1}}
DiscRes(s) == IF \E j \in DOMAIN con : Cmp(con[j], s) = {-9} THEN {-9}
              ELSE IF \E j \in DOMAIN con : -9 \in Cmp(con[j], s) THEN {-9, 0}
              ELSE {Cardinality(Same(s))}
\* Removal of a slot moves the last one to its place; several are removed in any order.
RemoveAt(q, j) == [i \in 1..(Len(q) - 1) |-> IF i = j THEN q[Len(q)] ELSE q[i]]
RECURSIVE Without(_, _)
Without(q, s) == LET J == {j \in DOMAIN q : Cmp(q[j], s) = {1}}
                 IN IF J = {} THEN {q} ELSE UNION {Without(RemoveAt(q, j), s) : j \in J}

Ops(g) == [op : {"mk"}, s : SVars, i : Objs, kd : {<<k, d>> \in (Kinds(g) \X (UserD \cup PrivD \cup {"none", "arg"})) : d \in Dess(g, k)}]
     \cup [op : {"cp", "cpa", "mv", "mva"}, s : SVars, s2 : SVars]
     \cup [op : {"call"}, s : SVars, a : Args, i : Objs]
     \cup [op : {"conn"}, s : SVars, f : {"copy", "rv", "scoped"}]
     \cup [op : {"cdir"}, i : Objs, kd : {<<k, d>> \in (Kinds(g) \X (UserD \cup PrivD \cup {"none", "arg"})) : d \in Dess(g, k) \ {"wp"}}]
     \cup [op : {"disc"}, i : Objs, kd : {<<k, d>> \in (Kinds(g) \X (UserD \cup PrivD \cup {"none", "arg"})) : d \in Dess(g, k) \ {"wp"}}]
     \cup [op : {"discs"}, s : SVars]
     \cup [op : {"eq"}, s : SVars, s2 : SVars]
     \cup [op : {"fresh"}]
     \cup [op : {"emit"}, a : Args, i : Objs]
     \cup [op : {"user"}, i : Objs, a : Args]

\* Only a slot can be made of these: connect() would call a member of a temporary object.
OnlySlot(g, kd) == kd[2] = "valrv" /\ (kd[1] = "lval" \/ (g = "S" /\ kd[1] \in Data))
Legal(g, p) == CASE p.op \in {"mk", "cdir", "disc"} -> /\ OkDes(p.kd[1], p.kd[2], p.i)
                                                       /\ p.op # "mk" => ~OnlySlot(g, p.kd)
                                                       /\ p.op = "cdir" => Single(g)
                 [] p.op \in {"cp", "cpa", "mv", "mva"} -> p.s # p.s2
                 [] p.op = "call" -> sl[p.s] # None /\ (p.i = 1 \/ g \in {"O", "P"})
                 [] p.op = "conn" -> sl[p.s] # None /\ Single(g)
                 [] p.op = "emit" -> p.i = 1 \/ g \in {"O", "P"}
                 [] OTHER -> TRUE

\* The results of emitting to slots q in order.
RECURSIVE Run(_, _, _, _, _)
Run(g, ac, q, a, i) == IF q = <<>> THEN <<ac, <<>>, <<>>>>
                       ELSE LET r == Invoke(g, ac, Head(q), a, i)
                                rest == Run(g, r[1], Tail(q), a, i)
                            IN <<rest[1], <<r[2]>> \o rest[2], <<r[3]>> \o rest[3]>>

\* What can be returned; for void signatures, what the callables computed.
Res(g, p) == CASE p.op = "call" -> {<<Invoke(g, acc, sl[p.s], p.a, p.i)[3]>>}
               [] p.op = "emit" -> LET r == Run(g, acc, con, p.a, p.i)[3]
                                IN {IF g = "Q" /\ r # <<>> THEN <<r[Len(r)]>> ELSE r}
               [] p.op = "eq" -> {<<r>> : r \in Cmp(sl[p.s], sl[p.s2])}
               [] p.op = "disc" -> {<<r>> : r \in DiscRes(Make(g, p.kd[1], p.kd[2], p.i))}
               [] p.op = "discs" -> {<<r>> : r \in DiscRes(sl[p.s])}
               [] OTHER -> {<<>>}

\* The operation p with result r.
Do(g, p, r) ==
    CASE p.op = "mk" -> sl' = [sl EXCEPT ![p.s] = Make(g, p.kd[1], p.kd[2], p.i)] /\ UNCHANGED <<acc, con>>
      [] p.op \in {"cp", "cpa"} -> sl' = [sl EXCEPT ![p.s] = sl[p.s2]] /\ UNCHANGED <<acc, con>>
      [] p.op \in {"mv", "mva"} -> sl' = [sl EXCEPT ![p.s] = sl[p.s2], ![p.s2] = None] /\ UNCHANGED <<acc, con>>
      [] p.op = "call" -> LET v == Invoke(g, acc, sl[p.s], p.a, p.i) IN
                            acc' = v[1] /\ sl' = [sl EXCEPT ![p.s] = v[2]] /\ UNCHANGED con
      [] p.op = "conn" -> con' = Append(con, sl[p.s]) /\ UNCHANGED <<acc, sl>>
      [] p.op = "cdir" -> con' = Append(con, Make(g, p.kd[1], p.kd[2], p.i)) /\ UNCHANGED <<acc, sl>>
      [] p.op = "emit" -> LET v == Run(g, acc, con, p.a, p.i) IN acc' = v[1] /\ con' = v[2] /\ UNCHANGED sl
      [] p.op = "user" -> acc' = [acc EXCEPT ![p.i] = @ + p.a] /\ UNCHANGED <<sl, con>>
      [] p.op = "eq" -> UNCHANGED vars
      [] p.op \in {"disc", "discs"} ->
            /\ con' \in IF r = <<-9>> THEN {con} ELSE Without(con, IF p.op = "disc" THEN Make(g, p.kd[1], p.kd[2], p.i) ELSE sl[p.s])
            /\ UNCHANGED <<acc, sl>>
      [] p.op = "fresh" -> con' = <<>> /\ UNCHANGED <<acc, sl>>

---------------------------------------------------------------------------
\* A user object changes only by the user or by a call that designates it; making, copying, moving and
\* connecting slots calls nothing.
Targets(q) == {q[j].t : j \in DOMAIN q}
Designated(g, p) ==
    /\ acc' # acc => p.op \in {"call", "emit", "user"}
    /\ \A i \in 0..2 : acc'[i] # acc[i] =>
          \/ p.op = "user" /\ p.i = i
          \/ p.op = "call" /\ (sl[p.s].t = i \/ (sl[p.s].t = -2 /\ p.i = i)) /\ sl[p.s].k \notin Const
          \/ p.op = "emit" /\ (i \in Targets(con) \/ (-2 \in Targets(con) /\ p.i = i))
\* Slots share no private state: using one slot leaves the others alone.
Private(g, p) ==
    /\ p.op = "call" => \A s \in SVars : s # p.s => sl'[s] = sl[s]
    /\ p.op = "call" => con' = con
    /\ p.op = "emit" => sl' = sl
\* Equal slots are told apart by nothing but their identity: after disconnecting what is equal to a slot
\* no slot equal to it is left and all others are.
Selective(g, p) == p.op = "discs" /\ con' # con =>
    /\ \A j \in DOMAIN con' : Cmp(con'[j], sl[p.s]) = {0}
    /\ \A v \in {con[j] : j \in DOMAIN con} : Cmp(v, sl[p.s]) = {0} =>
          Cardinality({j \in DOMAIN con : con[j] = v}) = Cardinality({j \in DOMAIN con' : con'[j] = v})
\* Comparison is symmetric and a comparable slot is equal to itself.
EqRule == \A s \in SVars : /\ sl[s] # None /\ Comparable(sl[s]) => Cmp(sl[s], sl[s]) = {1}
                           /\ \A u \in SVars : Cmp(sl[s], sl[u]) = Cmp(sl[u], sl[s])
=============================================================================
