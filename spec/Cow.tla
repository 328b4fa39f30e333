-------------------------------- MODULE Cow --------------------------------
(***************************************************************************)
(* Copy-on-write pointers (sig::detail::cow_ptr).                          *)
(* ptr[x] is the object pointer x owns a share of (0: null), val[i] the    *)
(* value of object i, hld[h] the pointer variable from which the reading   *)
(* reference h was obtained (0: h is not usable).  Objects exist exactly   *)
(* while some pointer owns a share; numbers are reused.                    *)
(***************************************************************************)
EXTENDS Naturals, FiniteSets, Sequences

CONSTANTS Vars,     \* pointer variables 1..n
          Refs,     \* reference variables
          Vals

VARIABLES ptr, val, hld,
          cp        \* copies of an object made by the last operation

vars == <<ptr, val, hld, cp>>

Ids == 1..(Cardinality(Vars) + 1)
Live == {ptr[x] : x \in Vars} \ {0}
Shared(x) == \E y \in Vars : y # x /\ ptr[y] = ptr[x]
MinFree(S) == CHOOSE i \in Ids \ S : \A j \in Ids \ S : i <= j

Init == /\ ptr = [x \in Vars |-> 0]
        /\ val = [i \in Ids |-> 0]
        /\ hld = [h \in Refs |-> 0]
        /\ cp = 0

\* References obtained from x are not covered any more once x is modified.
Drop(S) == [h \in Refs |-> IF hld[h] \in S THEN 0 ELSE hld[h]]

\* State after a modification: values of dead objects are forgotten.
Set(p, v, S) == /\ ptr' = p
                /\ val' = [i \in Ids |-> IF i \in {p[x] : x \in Vars} THEN v[i] ELSE 0]
                /\ hld' = Drop(S)

Unchanged == UNCHANGED <<ptr, val, hld>>

New(x, v) == LET i == MinFree(Live) IN Set([ptr EXCEPT ![x] = i], [val EXCEPT ![i] = v], {x})
Null(x) == Set([ptr EXCEPT ![x] = 0], val, {x})
CopyTo(x, y) == IF x = y THEN Unchanged ELSE Set([ptr EXCEPT ![x] = ptr[y]], val, {x})
MoveTo(x, y) == Set([ptr EXCEPT ![x] = ptr[y], ![y] = 0], val, {x, y})
Swap(x, y) == Set([ptr EXCEPT ![x] = ptr[y], ![y] = ptr[x]], val, {x, y})

\* Access for writing: the pointer gets its own object first.
Own(x, v) == IF ptr[x] # 0 /\ Shared(x)
             THEN LET i == MinFree(Live) IN Set([ptr EXCEPT ![x] = i], [val EXCEPT ![i] = v], {x})
             ELSE Set(ptr, IF ptr[x] = 0 THEN val ELSE [val EXCEPT ![ptr[x]] = v], {x})
Hold(h, x) == /\ hld' = [hld EXCEPT ![h] = x]
              /\ UNCHANGED <<ptr, val>>

Copies(o) == IF o.op \in {"wr", "touch"} /\ ptr[o.x] # 0 /\ Shared(o.x) /\ o.thr = 0 THEN 1 ELSE 0

WrForms == {"write", "star", "arrow", "data", "conv"}
Ops == [op : {"new"}, x : Vars, v : Vals, f : {"make", "il", "ctor", "asg", "temp"}]
  \cup [op : {"null"}, x : Vars, f : {"dflt", "asg", "ctor"}]
  \cup [op : {"cp"}, x : Vars, y : Vars, f : {"ctor", "asg", "casg"}]
  \cup [op : {"mv"}, x : Vars, y : Vars, f : {"ctor", "asg"}]
  \cup [op : {"swap"}, x : Vars, y : Vars]
  \cup [op : {"wr"}, x : Vars, v : Vals, f : WrForms, thr : {0, 1}]
  \cup [op : {"touch"}, x : Vars, f : {"arrow", "data", "conv", "write"}, thr : {0}]
  \cup [op : {"test"}, x : Vars, f : {"bool", "not", "cbool"}]
  \cup [op : {"hold"}, h : Refs, x : Vars, f : {"read", "star", "arrow", "data", "conv"}]

Legal(o) == CASE o.op = "cp" -> o.x # o.y \/ o.f \in {"asg", "casg"}
              [] o.op \in {"mv", "swap"} -> o.x # o.y
              [] o.op = "wr" -> ptr[o.x] # 0 /\ (o.thr = 1 => Shared(o.x))
              [] o.op = "touch" -> ptr[o.x] # 0 \/ o.f \in {"data", "conv"}
              [] o.op = "hold" -> ptr[o.x] # 0
              [] OTHER -> TRUE

\* The effect of an operation.  thr = 1: the copy constructor of the object will throw when called.
Do(o) == /\ CASE o.op = "new" -> New(o.x, o.v)
              [] o.op = "null" -> Null(o.x)
              [] o.op = "cp" -> CopyTo(o.x, o.y)
              [] o.op = "mv" -> MoveTo(o.x, o.y)
              [] o.op = "swap" -> Swap(o.x, o.y)
              [] o.op = "wr" -> IF o.thr = 1 /\ Shared(o.x) THEN Unchanged ELSE Own(o.x, o.v)
              [] o.op = "touch" -> Own(o.x, IF ptr[o.x] = 0 THEN 0 ELSE val[ptr[o.x]])
              [] o.op = "test" -> Unchanged
              [] o.op = "hold" -> Hold(o.h, o.x)
         /\ cp' = Copies(o)

\* What it returns: whether the exception came out (wr), whether the pointer is valid (test, touch).
Result(o) == CASE o.op = "wr" -> IF o.thr = 1 /\ Shared(o.x) THEN 1 ELSE 0
               [] o.op \in {"test", "touch"} -> IF ptr[o.x] # 0 THEN 1 ELSE 0
               [] OTHER -> 0

(***************************************************************************)
(* What can be observed in a state: for every pointer the value read       *)
(* through it (0: null) and the first pointer that shares its object.      *)
(***************************************************************************)
ValueOf(x) == IF ptr[x] = 0 THEN 0 ELSE val[ptr[x]]
FirstOf(x) == CHOOSE y \in Vars : ptr[y] = ptr[x] /\ \A z \in Vars : ptr[z] = ptr[x] => y <= z

Next == \E o \in Ops : Legal(o) /\ Do(o)
Spec == Init /\ [][Next]_vars

---------------------------------------------------------------------------
TypeOK == /\ \A x \in Vars : ptr[x] \in {0} \cup Ids
          /\ \A h \in Refs : hld[h] \in {0} \cup Vars
HoldOK == \A h \in Refs : hld[h] # 0 => ptr[hld[h]] # 0
ValOK == \A i \in Ids : (val[i] # 0) <=> i \in Live

\* A write through one pointer is never visible through another one; reading references keep their value.
Isolation == [][\A x, y \in Vars : (x # y /\ ptr'[x] = ptr[x] /\ ptr[x] # 0 /\ ValueOf(x)' # ValueOf(x)) => (ptr[y] # ptr[x] \/ ptr'[y] # ptr[y])]_vars
RefStable == [][\A h \in Refs : (hld[h] # 0 /\ hld'[h] = hld[h]) =>
                   (ptr'[hld[h]] = ptr[hld[h]] /\ ValueOf(hld[h])' = ValueOf(hld[h]))]_<<ptr, val, hld>>
CopyIffShared == [][cp' = 1 => Cardinality({ptr'[x] : x \in Vars} \ {0}) \in {Cardinality(Live), Cardinality(Live) + 1}]_vars
=============================================================================
