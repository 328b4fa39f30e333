------------------------------- MODULE Compare -------------------------------
(***************************************************************************)
(* Comparison operators of optionals.  Operands are ranks: 0 is empty,     *)
(* 1..n are values in increasing order.  The optionals hold a state (they  *)
(* are assigned between comparisons) so that comparisons after arbitrary   *)
(* histories are covered: o[x] is the rank of optional x.                  *)
(***************************************************************************)
EXTENDS Naturals, FiniteSets, Sequences

CONSTANTS Vars, MaxRank
VARIABLES o
Ranks == 0..MaxRank
Init == o = [x \in Vars |-> 0]

B(p) == IF p THEN 1 ELSE 0
\* ==  !=  <  <=  >  >=
Answers(a, b) == <<B(a = b), B(a # b), B(a < b), B(a <= b), B(a > b), B(a >= b)>>

Types == {"int", "str", "dbl", "cls", "uns", "ref", "cref", "rcls", "rstr"}
Ops == [op : {"set"}, x : Vars, v : Ranks]
  \cup [op : {"cmp"}, x : Vars, y : Vars, f : {"oo", "coo"}]
  \cup [op : {"cmp"}, x : Vars, f : {"on", "no"}]
  \cup [op : {"cmp"}, x : Vars, v : 1..MaxRank, f : {"ov", "vo"}]
Do(p) == IF p.op = "set" THEN o' = [o EXCEPT ![p.x] = p.v] ELSE UNCHANGED o
Result(p) == IF p.op = "set" THEN <<>>
             ELSE CASE p.f \in {"oo", "coo"} -> Answers(o[p.x], o[p.y])
                    [] p.f = "on" -> Answers(o[p.x], 0)
                    [] p.f = "no" -> Answers(0, o[p.x])
                    [] p.f = "ov" -> Answers(o[p.x], p.v)
                    [] p.f = "vo" -> Answers(p.v, o[p.x])
Next == \E p \in Ops : Do(p)
Spec == Init /\ [][Next]_o

---------------------------------------------------------------------------
(* The order is total, with empty lowest; operators are consistent.        *)
A(x, y) == Answers(o[x], o[y])
Consistent == \A x, y \in Vars :
    /\ A(x, y)[1] + A(x, y)[2] = 1                          \* == and != are opposite
    /\ A(x, y)[3] + A(x, y)[6] = 1 /\ A(x, y)[5] + A(x, y)[4] = 1
    /\ A(x, y)[3] = A(y, x)[5] /\ A(x, y)[4] = A(y, x)[6]   \* mirror images
    /\ A(x, y)[1] + A(x, y)[3] + A(x, y)[5] = 1             \* trichotomy
    /\ o[x] = 0 => A(x, y)[4] = 1                           \* empty is lowest
Transitive == \A x, y, z \in Vars : (A(x, y)[3] = 1 /\ A(y, z)[3] = 1) => A(x, z)[3] = 1
=============================================================================
