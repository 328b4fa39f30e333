------------------------------ MODULE ScaleMC -------------------------------
(* Scale in the small: what is done with runs is what would be done with   *)
(* the slots one by one (as in Signals.tla).                               *)
EXTENDS Scale, TLC, Json, IOUtils

Cfg == JsonDeserialize(IOEnv.MC)
Small == [op : {"con"}, s : Sigs, n : 1..3, g : {0}] \cup [op : {"disc"}, a : 1..5, b : 1..6, f : {"up", "down"}]
   \cup [op : {"blk"}, a : {2}, b : 2..3] \cup [op : {"unblk"}, a : {3}, b : {4}] \cup [op : {"erase"}, s : Sigs, g : {0}]
   \cup [op : {"mv"}, s : Sigs, s2 : Sigs] \cup [op : {"del"}, s : Sigs] \cup [op : {"emit"}, s : Sigs, n : {1}]
Next == \E o \in Small : /\ nxt + (IF o.op = "con" THEN o.n ELSE 0) <= Cfg.max + 1
                         /\ o.op \in {"disc", "blk", "unblk"} => o.a <= o.b /\ o.a < nxt
                         /\ \E em \in {IF o.op = "emit" THEN Join(Visible(o.s)) ELSE <<>>} : Do(o, em)
MCSpec == Init /\ [][Next]_vars

Run(r) == [k \in 1..Len1(r) |-> IF r[1] <= r[2] THEN r[1] + k - 1 ELSE r[1] - k + 1]
Elts(q) == Flat([k \in DOMAIN q |-> Run(q[k])])
Ran(q) == {q[k] : k \in DOMAIN q}
\* The rules for one slot at a time.
Swap1(q, i) == LET p == CHOOSE k \in DOMAIN q : q[k] = i
               IN SubSeq([q EXCEPT ![p] = q[Len(q)]], 1, Len(q) - 1)
RECURSIVE Each1(_, _, _, _)
Each1(q, a, b, down) == IF a > b THEN q
    ELSE LET i == IF down THEN b ELSE a
         IN Each1(IF i \in Ran(q) THEN Swap1(q, i) ELSE q, IF down THEN a ELSE a + 1, IF down THEN b - 1 ELSE b, down)

Once == /\ \A s \in Sigs : Cardinality(Ran(Elts(list[s]))) = Size(list[s]) /\ Len(Elts(list[s])) = Size(list[s])
        /\ Ran(Elts(list[1])) \cap Ran(Elts(list[2])) = {}
Runs == \A s \in Sigs : LET q == list[s] e == Elts(q) IN
        /\ Elts(Join(q)) = e /\ Join(Join(q)) = Join(q)
        /\ Spread(q)
        /\ \A a \in 1..6 : \A b \in a..6 : /\ Elts(Cut(q, a, b)) = SelectSeq(e, LAMBDA i : i \notin a..b)
                                           /\ Elts(Keep(q, a, b)) = SelectSeq(e, LAMBDA i : i \in a..b)
        /\ \A i \in Ran(e) : Elts(Swap(q, i)) = Swap1(e, i)
        \* Runs are the same however they were made.
        /\ Join([k \in DOMAIN e |-> <<e[k], e[k]>>]) = Join(q)
Bulk == \A a \in 1..6 : \A b \in a..6 : \A down \in BOOLEAN : \A s \in Sigs :
            LET q == list[s] e == Elts(q) IN
            /\ Elts(Each(q, a, b, down)) = Each1(e, a, b, down)
            /\ (Common(q, a, b) > 0 /\ down /\ AtEnd(q, a, b)) => Elts(Cut(q, a, b)) = Each1(e, a, b, TRUE)
View == <<nxt, [s \in Sigs |-> Join(list[s])], ord, Visible(1), Visible(2)>>
OffForever == [][\A i \in 1..(nxt - 1) : Conn(i, i) = 0 => Conn(i, i)' = 0]_vars
=============================================================================
