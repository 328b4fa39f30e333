---------------------------- MODULE OptionalGen ----------------------------
(* Model checking of Optional and programs for the implementation: every   *)
(* operation in every state of the model, or random walks.                 *)
EXTENDS Optional, TLC, Json, IOUtils

Cfg == JsonDeserialize(IOEnv.MC)
K == Cfg.kind
VARIABLES hist
GenInit == Init /\ hist = <<>>
GenNext == \E p \in Ops(K) : /\ Legal(K, p)
                             /\ DoOk(K, p)
                             /\ hist' = Append(hist, p)
                             /\ PrintT("PROG " \o ToJson(hist'))
View == o
GenSpec == GenInit /\ [][GenNext]_<<vars, hist>>

\* Some walks contain failing operations; the state after them is not always determined, so later operations
\* may turn out not to be legal: the harness leaves those out.
WalkNext == /\ Len(hist) < Cfg.depth
            /\ \E p \in {RandomElement({q \in Ops(K) : Legal(K, q) /\ (HasThr(q) => q.thr = 0 \/ Len(hist) % 5 = 4)})} :
                  DoOk(K, p) /\ hist' = Append(hist, p)
            /\ Len(hist') = Cfg.depth => PrintT("PROG " \o ToJson(hist'))
WalkSpec == GenInit /\ [][WalkNext]_<<vars, hist>>

---------------------------------------------------------------------------
Is(p) == Legal(K, p) /\ (DoOk(K, p) \/ DoFail(K, p))
Touched(p) == CASE p.op = "setc" -> {3} [] p.op \in {"newo", "asgo", "swap"} -> {p.x, p.y} [] OTHER -> {p.x}
\* Only the variables named by an operation change.
Frame(p) == \A x \in Vars \ Touched(p) : o'[x] = o[x]
\* An operation that copies never changes its source; one that moves leaves its source engaged.
CopyKeeps(p) == (p.op \in {"newo", "asgo"} /\ p.x # p.y) =>
                    IF p.f \in {"copy", "ccopy", "conv"} THEN o'[p.y] = o[p.y] ELSE (o'[p.y] = 0) = (o[p.y] = 0)
\* Without exceptions a value is lost only by nullopt, reset or an empty source.
NoLoss(p) == (ex' = 0 /\ p.op # "setc" /\ o[p.x] # 0 /\ o'[p.x] = 0) =>
                    \/ p.op = "reset" \/ (p.op = "asg" /\ p.f = "null") \/ (p.op = "new" /\ p.f \in EmptyForms)
                    \/ (p.op \in {"newo", "asgo", "swap"} /\ o[p.y] = 0)
\* A failed assignment or access changes no optional but the source of a converting move.
FailKeeps(p) == (ex' = 1 /\ p.op \in {"asg", "asgo", "take", "vor"}) => o'[p.x] = o[p.x]
Good(p) == Frame(p) /\ CopyKeeps(p) /\ NoLoss(p) /\ FailKeeps(p)
MCNext == \E p \in Ops(K) : Is(p) /\ Assert(Good(p), <<"violated by", p>>) /\ UNCHANGED hist
MCSpec == GenInit /\ [][MCNext]_<<vars, hist>>
=============================================================================
