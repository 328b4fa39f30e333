---------------------------- MODULE CallableGen ----------------------------
(* Programs: for every kind of callable and designation (Cfg.sig) all      *)
(* sequences of Cfg.depth operations that begin with making it; or walks.  *)
EXTENDS Callable, SequencesExt, TLC, Json, IOUtils
Cfg == JsonDeserialize(IOEnv.MC)
G == Cfg.sig
AllOps == Ops(G)
Makers == {p \in AllOps : p.op = "mk" \/ p.op = "cdir"}
Uses == {p \in AllOps : p.op \notin {"mk", "cdir", "disc", "eq", "fresh"}}
VARIABLES hist
GenInit == Init /\ hist = <<>>
OkFirst(p) == IF hist = <<>> THEN (p.op = "mk" /\ p.s = 1) \/ p.op = "cdir"
              ELSE (p.op \in {"cp", "cpa", "mv", "mva"} => sl[p.s2] # None)
GenNext == /\ Len(hist) < Cfg.depth
           /\ \E p \in IF hist = <<>> THEN Makers ELSE Uses : /\ OkFirst(p) /\ Legal(G, p)
                                /\ \E r \in Res(G, p) : Do(G, p, r)
                                /\ Assert(Designated(G, p) /\ Private(G, p) /\ Selective(G, p) /\ EqRule', <<"violated by", p>>)
                                /\ hist' = Append(hist, p)
           /\ Len(hist') = Cfg.depth => PrintT("PROG " \o ToJson(hist'))
GenSpec == GenInit /\ [][GenNext]_<<vars, hist>>

\* Operations that designate something that is connected already are preferred.
Aimed(q) == q.op \in {"disc", "cdir"} => \E j \in DOMAIN con : <<con[j].k, con[j].d>> = q.kd
WalkNext == /\ Len(hist) < Cfg.depth
            /\ \E n \in {RandomElement({"mk", "cp", "cpa", "mv", "mva", "call", "conn", "cdir", "emit", "user", "disc", "discs", "eq"})} :
               \E b \in {RandomElement(1..3)} :
               \E p \in LET S == {q \in AllOps : q.op = n /\ Legal(G, q) /\ (n \in {"conn", "cdir"} => Len(con) <= 6)}
                            T == IF b = 1 THEN {} ELSE {q \in S : Aimed(q)}
                        IN {RandomElement(IF T # {} THEN T ELSE IF S # {} THEN S ELSE {q \in AllOps : q.op = "user"})} :
                  /\ hist' = Append(hist, p)
                  /\ \E r \in Res(G, p) : Do(G, p, r)
            /\ Len(hist') = Cfg.depth => PrintT("PROG " \o ToJson(hist'))
WalkSpec == GenInit /\ [][WalkNext]_<<vars, hist>>

\* Pairs of callables.  For every callable A (Cfg.mode = "eq"): slots of A and of every B are compared, also
\* after calls.  Cfg.mode = "disc": A, B, A are connected, and disconnected by B and by A, for every B
\* that is related to A.
All == SetToSeq({q \in AllOps : q.op = "mk" /\ q.s = 1 /\ OkDes(q.kd[1], q.kd[2], q.i)})
Related(p, q) == p.kd[1] = q.kd[1] \/ Type(Make(G, p.kd[1], p.kd[2], p.i)) = Type(Make(G, q.kd[1], q.kd[2], q.i))
                 \/ (p.kd[2] = q.kd[2] /\ p.kd[1] \in Mem /\ p.i = q.i)
Direct(q, o) == [op |-> o, kd |-> q.kd, i |-> q.i]
CanDirect(q) == q.kd[2] # "wp" /\ ~OnlySlot(G, q.kd)
Call(s, i) == [op |-> "call", s |-> s, a |-> 1, i |-> i]
Eq(x, y) == [op |-> "eq", s |-> x, s2 |-> y]
EqPart(q) == <<[q EXCEPT !.s = 2], Eq(1, 2), Eq(2, 1), Call(2, 1), Eq(1, 2)>>
\* Slots whose callables take an argument that can only be moved are alone in their signal.
Solo == G \in {"M", "N", "R"}
DiscPart(p, q) ==
    LET add(x) == IF CanDirect(x) THEN <<Direct(x, "cdir")>> ELSE <<[x EXCEPT !.s = 2], [op |-> "conn", s |-> 2, f |-> "copy"]>>
        rem(x) == IF CanDirect(x) THEN <<Direct(x, "disc")>> ELSE <<[x EXCEPT !.s = 2], [op |-> "discs", s |-> 2]>>
        emit == <<[op |-> "emit", a |-> 1, i |-> 1]>>
        fresh == <<[op |-> "fresh"]>>
    IN IF Solo THEN add(p) \o rem(q) \o rem(p) \o fresh
       ELSE add(p) \o add(q) \o add(p) \o rem(q) \o emit \o add(q) \o rem(p) \o emit \o rem(q) \o fresh
\* In parts of Size callables B.
Size == 16
Others(p) == SelectSeq(All, LAMBDA q : Cfg.mode = "eq" \/ Related(p, q))
Parts(p) == 0..((Len(Others(p)) - 1) \div Size)
Script(p, n) == LET os == SubSeq(Others(p), n * Size + 1, IF (n + 1) * Size < Len(Others(p)) THEN (n + 1) * Size ELSE Len(Others(p)))
                IN IF Cfg.mode = "eq" THEN <<p>> \o FlattenSeq([j \in DOMAIN os |-> EqPart(os[j])]) \o <<Eq(1, 1)>>
                   ELSE FlattenSeq([j \in DOMAIN os |-> DiscPart(p, os[j])])
PairInit == Init /\ hist = <<>>
PairNext == hist = <<>> /\ \E j \in DOMAIN All : \E n \in Parts(All[j]) :
                               hist' = <<j, n>> /\ PrintT("PROG " \o ToJson(Script(All[j], n))) /\ UNCHANGED vars
PairSpec == PairInit /\ [][PairNext]_<<vars, hist>>
=============================================================================
