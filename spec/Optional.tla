------------------------------ MODULE Optional ------------------------------
(***************************************************************************)
(* opt::optional<T> for value types.  o[x] is 0 if x is empty, otherwise   *)
(* the value it holds.  Variables 1 and 2 are optional<T>, 3 is an         *)
(* optional<C> of a type C that converts to T.  Kind selects T:            *)
(*   "V" class with throwing copies, moves, conversions; moved-from marked *)
(*   "N" class that can only be copied        "M" class that can be moved  *)
(*   "I" int (from short)                     "B" bool (from char)         *)
(*   "D" double (from float)                  "P" pointer (from derived)   *)
(***************************************************************************)
EXTENDS Naturals, Integers, FiniteSets, Sequences

CONSTANTS Vals
VARIABLES o,
          ex        \* did the last operation fail with the exception of a value
vars == <<o, ex>>

TVars == {1, 2}
Vars == {1, 2, 3}
Moved == 9
Dflt(k) == IF k = "B" THEN 2 ELSE 8
Init == o = [x \in Vars |-> 0] /\ ex = 0

Marks(k) == k \in {"V", "M"}
\* What a moved-from object holding v is left with.
After(k, v) == IF v = 0 THEN 0 ELSE IF Marks(k) THEN Moved ELSE v
Throws(k) == k \in {"V", "N", "M"}
Copies(k) == k # "M"

---------------------------------------------------------------------------
(* Operations.  f: the form used, thr: the thr-th operation on a value     *)
(* that may fail does fail (0: none does).                                 *)
NewForms(k) == {"none", "nullopt", "rv", "cond1", "cond0", "inpl", "inpld", "if1", "if0", "mk", "mkc1", "mkc0", "mkai1", "mkai0"}
               \cup (IF k = "B" THEN {} ELSE {"mka"})    \* make_optional<bool>(b) is the conditional form
               \cup (IF Copies(k) THEN {"lv", "clv", "mklv"} ELSE {})
               \cup (IF Throws(k) THEN {"inpl2", "if21", "il", "ilif1", "ilif0", "mka2"} ELSE {})
EmptyForms == {"none", "nullopt", "cond0", "if0", "mkc0", "mkai0", "ilif0"}
MovesIn == {"rv", "cond1", "mk", "mkc1"}        \* forms that move their source
KeepsIn == {"lv", "clv", "mklv", "cond0", "mkc0"} \* forms that leave their source alone

OptForms(k) == {"move", "cmove"} \cup (IF Copies(k) THEN {"copy", "ccopy", "conv"} ELSE {})
Thr(k) == IF Throws(k) THEN {0, 1, 2} ELSE {0}

Ops(k) == [op : {"new"}, x : TVars, v : Vals, f : NewForms(k), thr : Thr(k)]
     \cup [op : {"newo"}, x : TVars, y : Vars, f : OptForms(k), thr : Thr(k)]
     \cup [op : {"asg"}, x : TVars, v : Vals, f : {"null", "rv"} \cup (IF Copies(k) THEN {"lv", "clv"} ELSE {}), thr : Thr(k)]
     \cup [op : {"asgo"}, x : TVars, y : Vars, f : OptForms(k), thr : Thr(k)]
     \cup [op : {"emp"}, x : TVars, v : Vals, f : {"one", "dflt"} \cup (IF Throws(k) THEN {"two", "il"} ELSE {}), thr : Thr(k)]
     \cup [op : {"reset"}, x : Vars]
     \cup [op : {"setc"}, v : Vals]
     \cup [op : {"swap"}, x : TVars, y : TVars, f : {"mem", "std", "adl"}, thr : IF Throws(k) THEN {0, 1, 2, 3} ELSE {0}]
     \cup [op : {"set"}, x : TVars, v : Vals, f : {"star", "arrow", "get", "value", "getptr", "fget", "fgetp", "fptr", "gvo", "fgvo"}]
     \cup [op : {"take"}, x : TVars, v : Vals, f : {"value", "star", "vor"}, thr : Thr(k)]
     \cup (IF Copies(k) THEN [op : {"vor"}, x : TVars, v : Vals, f : {"rv", "lv"}, thr : Thr(k)] ELSE {})

Legal(k, p) ==
    CASE p.op \in {"newo", "asgo"} -> /\ p.f \in {"conv", "cmove"} <=> p.y = 3
                                      /\ p.op = "newo" => p.x # p.y
      [] p.op = "set" -> o[p.x] # 0
      [] p.op = "take" -> p.f # "star" \/ o[p.x] # 0
      [] OTHER -> TRUE

\* The successors: <<new state, result>> without an exception of a value
SetTo(x, v) == [o EXCEPT ![x] = v]
SrcAfter(k, p) == IF p.f \in MovesIn THEN After(k, p.v) ELSE IF p.f \in KeepsIn THEN p.v ELSE 0
OkResult(k, p) ==
    CASE p.op = "new" -> <<SetTo(p.x, IF p.f \in EmptyForms THEN 0 ELSE IF p.f = "inpld" THEN Dflt(k) ELSE p.v), SrcAfter(k, p)>>
      [] p.op = "newo" -> <<[o EXCEPT ![p.x] = o[p.y], ![p.y] = IF p.f \in {"move", "cmove"} THEN After(k, o[p.y]) ELSE o[p.y]], 0>>
      [] p.op = "asg" -> <<SetTo(p.x, IF p.f = "null" THEN 0 ELSE p.v), SrcAfter(k, p)>>
      [] p.op = "asgo" -> <<IF p.x = p.y THEN o
                            ELSE [o EXCEPT ![p.x] = o[p.y], ![p.y] = IF p.f \in {"move", "cmove"} THEN After(k, o[p.y]) ELSE o[p.y]], 0>>
      [] p.op = "emp" -> <<SetTo(p.x, IF p.f = "dflt" THEN Dflt(k) ELSE p.v), 0>>
      [] p.op = "reset" -> <<SetTo(p.x, 0), 0>>
      [] p.op = "setc" -> <<SetTo(3, p.v), 0>>
      [] p.op = "swap" -> <<[o EXCEPT ![p.x] = o[p.y], ![p.y] = o[p.x]], 0>>
      [] p.op = "set" -> <<SetTo(p.x, p.v), 0>>
      [] p.op = "take" -> IF o[p.x] = 0 THEN <<o, IF p.f = "vor" THEN p.v ELSE -1>>
                          ELSE <<SetTo(p.x, After(k, o[p.x])), o[p.x]>>
      [] p.op = "vor" -> <<o, IF o[p.x] = 0 THEN p.v ELSE o[p.x]>>

\* States after an exception of a value: what is constructed does not exist, what is assigned keeps its
\* value, what is emplaced is empty.  The source of a conversion may have been moved from.
Maybe(k, y) == {o[y], After(k, o[y])}
Failed(k, p) ==
    CASE p.op = "new" -> {SetTo(p.x, 0)}
      [] p.op = "newo" -> IF p.f = "cmove" THEN {[o EXCEPT ![p.x] = 0, ![p.y] = v] : v \in Maybe(k, p.y)} ELSE {SetTo(p.x, 0)}
      [] p.op = "asg" -> {o}
      [] p.op = "asgo" -> IF p.f = "cmove" THEN {SetTo(p.y, v) : v \in Maybe(k, p.y)} ELSE {o}
      [] p.op = "emp" -> {SetTo(p.x, 0)}
      [] p.op = "swap" -> LET S == {0, o[p.x], o[p.y], Moved} IN {[o EXCEPT ![p.x] = v, ![p.y] = w] : v \in S, w \in S}
      [] p.op \in {"take", "vor"} -> {o}
      [] OTHER -> {}

HasThr(p) == p.op \in {"new", "newo", "asg", "asgo", "emp", "swap", "take", "vor"}
DoOk(k, p) == o' = OkResult(k, p)[1] /\ ex' = 0
DoFail(k, p) == HasThr(p) /\ p.thr > 0 /\ o' \in Failed(k, p) /\ ex' = 1

Engaged(S) == {x \in S : o[x] # 0}

Next(k) == \E p \in Ops(k) : Legal(k, p) /\ (DoOk(k, p) \/ DoFail(k, p))

---------------------------------------------------------------------------
(* Properties of the specification itself.                                 *)
ValueSet == {0, 1, 2, 8, Moved}
TypeOK == \A x \in Vars : o[x] \in ValueSet \cup Vals
=============================================================================
