------------------------------- MODULE Scale --------------------------------
(* Signals with very many slots, and very many calls.  Same rules as in    *)
(* Signals.tla, but operations come in bulk and only what can be observed  *)
(* in bulk is described: the order in which an emission invokes the slots, *)
(* the state of connections, the number of callables that exist.           *)
(* Slots are numbered; a list of slots is written as a sequence of runs    *)
(* <<x, y>>: the numbers from x to y, upwards or downwards.                *)
EXTENDS Integers, Sequences, FiniteSets

CONSTANTS Sigs
VARIABLES nxt,      \* number of the next slot
          list,     \* of each signal: its slots in the order of invocation
          ord,      \* ... whether that order is determined
          blk,      \* slots that were blocked (as runs, upwards)
          grp       \* grp[g]: slots of group g, whose callables are equal
vars == <<nxt, list, ord, blk, grp>>
Gs == 0..3
Init == /\ nxt = 1 /\ list = [s \in Sigs |-> <<>>] /\ ord = [s \in Sigs |-> TRUE]
        /\ blk = <<>> /\ grp = [g \in Gs |-> <<>>]

(* Runs *)
Min(a, b) == IF a < b THEN a ELSE b
Max(a, b) == IF a < b THEN b ELSE a
Len1(r) == IF r[1] <= r[2] THEN r[2] - r[1] + 1 ELSE r[1] - r[2] + 1
In(r, i) == (r[1] <= i /\ i <= r[2]) \/ (r[2] <= i /\ i <= r[1])
RECURSIVE Size(_), Join(_), Flat(_)
Size(q) == IF q = <<>> THEN 0 ELSE Len1(q[1]) + Size(Tail(q))
Flat(qq) == IF qq = <<>> THEN <<>> ELSE Head(qq) \o Flat(Tail(qq))
Has(q, i) == \E k \in DOMAIN q : In(q[k], i)
\* What a run is without the numbers a..b, what is common.
CutRun(r, a, b) ==
    IF r[1] <= r[2] THEN (IF r[1] < a THEN << <<r[1], Min(r[2], a - 1)>> >> ELSE <<>>) \o (IF r[2] > b THEN << <<Max(r[1], b + 1), r[2]>> >> ELSE <<>>)
    ELSE (IF r[1] > b THEN << <<r[1], Max(r[2], b + 1)>> >> ELSE <<>>) \o (IF r[2] < a THEN << <<Min(r[1], a - 1), r[2]>> >> ELSE <<>>)
Cut(q, a, b) == IF a > b THEN q ELSE Flat([k \in DOMAIN q |-> CutRun(q[k], a, b)])
RECURSIVE CutAll(_, _)
CutAll(q, h) == IF h = <<>> THEN q ELSE CutAll(Cut(q, h[1][1], h[1][2]), Tail(h))
Keep(q, a, b) == Cut(Cut(q, 0, a - 1), b + 1, 1000000000)
Common(q, a, b) == Size(q) - Size(Cut(q, a, b))
\* Longest runs (numbers do not repeat): adjacent runs become one.
Fits(r, t) == \E d \in {1, -1} : t[1] = r[2] + d /\ (r[1] = r[2] \/ (r[2] > r[1]) = (d = 1)) /\ (t[1] = t[2] \/ (t[2] > t[1]) = (d = 1))
Join(q) == IF Len(q) <= 1 THEN q
           ELSE IF Fits(q[1], q[2]) THEN Join(<< <<q[1][1], q[2][2]>> >> \o SubSeq(q, 3, Len(q)))
           ELSE <<q[1]>> \o Join(Tail(q))

(* Removal of one slot: the last one moves to its place. *)
Last(q) == q[Len(q)][2]
Pop(q) == LET r == q[Len(q)] IN SubSeq(q, 1, Len(q) - 1) \o
              (IF r[1] = r[2] THEN <<>> ELSE << <<r[1], IF r[1] < r[2] THEN r[2] - 1 ELSE r[2] + 1>> >>)
PutRun(r, i, v) == LET c == CutRun(r, i, i)
                   IN IF ~In(r, i) THEN <<r>>
                      ELSE IF Len(c) = 2 THEN <<c[1], <<v, v>>, c[2]>>
                      ELSE IF r[1] = i THEN << <<v, v>> >> \o c ELSE c \o << <<v, v>> >>
Swap(q, i) == IF Last(q) = i THEN Pop(q) ELSE LET p == Pop(q) IN Flat([k \in DOMAIN p |-> PutRun(p[k], i, Last(q))])
RECURSIVE Each(_, _, _, _)
Each(q, a, b, down) ==
    IF a > b THEN q
    ELSE LET i == IF down THEN b ELSE a
         IN Each(IF Has(q, i) THEN Swap(q, i) ELSE q, IF down THEN a ELSE a + 1, IF down THEN b - 1 ELSE b, down)
Exact == 40
\* Slots a..b are disconnected one by one: the order is determined, but worked out only for a few of
\* them or if they are the last ones, or all.
AtEnd(q, a, b) == LET r == q[Len(q)] IN r[1] <= r[2] /\ In(<<a, b>>, r[2]) /\ Size(Cut(<<r>>, a, b)) = Size(<<r>>) - Common(q, a, b)
Disc(a, b, down) ==
    LET n == [s \in Sigs |-> Common(list[s], a, b)]
        Plain(s) == n[s] = 0 \/ n[s] = Size(list[s]) \/ (down /\ AtEnd(list[s], a, b))
    IN /\ list' = [s \in Sigs |-> IF Plain(s) \/ b - a >= Exact THEN Cut(list[s], a, b) ELSE Each(list[s], a, b, down)]
       /\ ord' = [s \in Sigs |-> ord[s] /\ (Plain(s) \/ b - a < Exact)]
\* Equal callables are removed in any order.
Hits(q, h) == Flat([k \in DOMAIN h |-> Keep(q, h[k][1], h[k][2])])
Erase(s, h) ==
    LET x == Hits(list[s], h)
        q == IF Size(x) = 1 THEN Swap(list[s], x[1][1]) ELSE CutAll(list[s], h)
    IN /\ list' = [list EXCEPT ![s] = q]
       /\ ord' = [ord EXCEPT ![s] = @ /\ (Size(x) <= 1 \/ q = <<>>)]

Visible(s) == CutAll(list[s], blk)
RECURSIVE Over(_, _)
Over(f, S) == IF S = {} THEN 0 ELSE LET s == CHOOSE s \in S : TRUE IN f[s] + Over(f, S \ {s})
Conn(a, b) == Over([s \in Sigs |-> Common(list[s], a, b)], Sigs)
ConnBlk(a, b) == Over([s \in Sigs |-> Common(list[s], a, b) - Common(Visible(s), a, b)], Sigs)
To(o) == Min(o.b, nxt - 1)

\* Results of the operations.
Result(o) ==
    CASE o.op \in {"con", "churn"} -> o.n
      [] o.op \in {"disc", "blk", "unblk"} -> Conn(o.a, To(o))
      [] o.op = "query" -> IF o.f = "blk" THEN ConnBlk(o.a, To(o)) ELSE Conn(o.a, To(o))
      [] o.op = "erase" -> Size(Hits(list[o.s], grp[o.g]))
      [] o.op \in {"mv", "del"} -> 0
      [] o.op = "copies" -> o.n * Conn(o.a, o.a)
      \* n emissions (each in a slot of the one before).
      [] o.op \in {"emit", "nest"} -> o.n * Size(Visible(o.s))

\* em: what one emission invoked, in order.
RECURSIVE Spread(_)
Spread(q) == IF q = <<>> THEN TRUE ELSE Keep(q, Min(q[1][1], q[1][2]), Max(q[1][1], q[1][2])) = <<q[1]>> /\ Spread(Tail(q))
Emitted(s, em) ==
    LET v == Visible(s)
    IN IF ord[s] THEN em = Join(v) /\ UNCHANGED <<list, ord>>
       ELSE \* the same slots, once each
            /\ Size(em) = Size(v) /\ Spread(em)
            /\ \A k \in DOMAIN em : Common(v, Min(em[k][1], em[k][2]), Max(em[k][1], em[k][2])) = Size(<<em[k]>>)
            /\ IF Size(em) = Size(list[s])
               THEN list' = [list EXCEPT ![s] = em] /\ ord' = [ord EXCEPT ![s] = TRUE]
               ELSE UNCHANGED <<list, ord>>

Do(o, em) ==
    CASE o.op = "con" -> /\ list' = [list EXCEPT ![o.s] = Append(@, <<nxt, nxt + o.n - 1>>)]
                         /\ grp' = [grp EXCEPT ![o.g] = Append(@, <<nxt, nxt + o.n - 1>>)]
                         /\ nxt' = nxt + o.n
                         /\ UNCHANGED <<ord, blk>>
      [] o.op = "disc" -> Disc(o.a, To(o), o.f = "down") /\ UNCHANGED <<nxt, blk, grp>>
      \* (Slots that are disconnected never return: they may be counted as blocked.)
      [] o.op = "blk" -> blk' = Append(Cut(blk, o.a, To(o)), <<o.a, To(o)>>) /\ UNCHANGED <<nxt, list, ord, grp>>
      [] o.op = "unblk" -> blk' = Cut(blk, o.a, To(o)) /\ UNCHANGED <<nxt, list, ord, grp>>
      [] o.op = "erase" -> Erase(o.s, grp[o.g]) /\ UNCHANGED <<nxt, blk, grp>>
      \* The signal is destroyed, an empty one takes its place.
      [] o.op = "del" -> list' = [list EXCEPT ![o.s] = <<>>] /\ ord' = [ord EXCEPT ![o.s] = TRUE] /\ UNCHANGED <<nxt, blk, grp>>
      \* s := the signal s2, whose place takes an empty one; what s had before is disconnected.
      [] o.op = "mv" -> /\ IF o.s = o.s2 THEN UNCHANGED <<list, ord>>
                           ELSE /\ list' = [list EXCEPT ![o.s] = list[o.s2], ![o.s2] = <<>>]
                                /\ ord' = [ord EXCEPT ![o.s] = ord[o.s2], ![o.s2] = TRUE]
                        /\ UNCHANGED <<nxt, blk, grp>>
      [] o.op \in {"emit", "nest"} -> Emitted(o.s, em) /\ UNCHANGED <<nxt, blk, grp>>
      \* Copies of a connection that are looked at; slots that are connected and disconnected at once.
      [] o.op \in {"query", "copies", "churn"} -> UNCHANGED vars
=============================================================================
