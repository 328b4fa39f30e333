#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough] [--seed N]   decides a property on /repo's working tree
   check.py --replay FILE                                  re-executes a reported violation"""
import json
import os
import random
import sys
import time

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import gen
import vlib
from props import PROPS, ALL
from vlib import Ctx, ToolError, NotUsable


def sample(progs, n, seed):
    if len(progs) <= n:
        return progs
    return sorted(random.Random(seed).sample(progs, n))


def check_signals(ctx):
    p = PROPS[ctx.prop]
    quick = ctx.tier == "quick"
    f = 1 if quick else 12
    bins = {}
    progs = {"seq": [], "conc": []}

    def build():
        bins.update(vlib.build_sigtest(ctx, p["variants"], "-O0" if quick else "-O1"))

    def modelcheck():
        for name, m in p["mc"]:
            if not quick:
                m = dict(m, max=[x + 1 if x else 0 for x in m["max"]])
            vlib.model_check(ctx, name, m, workers=3, timeout=600 if quick else 7200)
        for name, m in p["live"]:
            vlib.model_check(ctx, name, m, cfg="SignalsLive.cfg", workers=2)

    def algorithm():
        for name, m, bugs in p["impl"]:
            vlib.model_check(ctx, name, m, module="SignalsImpl.tla", cfg="SignalsImpl.cfg", workers=2 if quick else 4)
            if not quick:
                vlib.model_check(ctx, name, m, module="SignalsImpl.tla", cfg="SignalsImplLive.cfg", workers=4)
                for b in bugs:
                    vlib.control(ctx, name, m, b)
                big = dict(m, max=[x + 1 if x else 0 for x in m["max"]])
                vlib.model_check(ctx, name + "+1", big, module="SignalsImpl.tla", cfg="SignalsImpl.cfg", workers=4, timeout=7200)

    def generate():
        for name, m in p["mc"]:
            ps = vlib.model_programs(ctx, name, m)
            conc = any(m["max"][1:])
            n = p["ncgen"] if conc else p["ngen"]
            progs["conc" if conc else "seq"] += sample(ps, n * (1 if quick else 40), ctx.seed)
        for i, prof in enumerate(p["seq"]):
            progs["seq"] += gen.random_programs(prof, ctx.seed * 31 + i, p["nseq"] * f // len(p["seq"]), "r%d." % i)
        progs["seq"] += gen.random_programs(ALL(), ctx.seed * 53 + int(ctx.prop[1:]), p["nall"] * f, "rall.")
        progs["seq"] += gen.big_programs(ctx.seed, p["nbig"] * f) + gen.long_programs(p["long"], ctx.seed * 41, p["nlong"] * f)
        for i, prof in enumerate(p["conc"]):
            progs["conc"] += gen.conc_programs(prof, ctx.seed * 37 + i, p["nconc"] * f // len(p["conc"]), "t%d." % i)

    vlib.parallel(build, modelcheck, algorithm, generate)
    ctx.log("built, models checked: %s states" % ctx.cov["states"])
    names = {b: v for v, b in bins.items()}
    traces = []
    jobs = []
    for i, v in enumerate(p["variants"]):
        # Every variant runs its share of the random programs and all of the generated ones.
        seq = [q for j, q in enumerate(progs["seq"]) if not q[0].startswith("r") or j % len(p["variants"]) == i]
        if i:
            seq = sample([q for q in seq if not q[0].startswith("r")], len(seq) // 3, ctx.seed + i) + [q for q in seq if q[0].startswith("r")]
        conc = [q for j, q in enumerate(progs["conc"]) if j % len(p["variants"]) == i]
        if seq:
            jobs.append(lambda v=v, seq=seq: vlib.run_harness(ctx, bins[v], seq, 1, ctx.seed, limit=60 * f, jobs=2))
        if conc:
            jobs.append(lambda v=v, conc=conc: vlib.run_harness(ctx, bins[v], conc, p["nsched"] * (1 if quick else 5), ctx.seed, limit=30 * f,
                                                               jobs=max(1, 6 // len(p["variants"]))))
    for r in vlib.parallel(*jobs):
        traces += r
    ctx.cov["programs"] = len(progs["seq"]) + len(progs["conc"])
    ctx.log("%d executions, %d distinct traces" % (ctx.cov["executions"], len(traces)))
    ops = {}
    for t in traces:
        for e in t["ev"]:
            k = e["o"]["op"] if e["e"] == "call" else e["e"]
            ops[k] = ops.get(k, 0) + 1
    ctx.cov["events"] = ops
    for t in traces[:: max(1, len(traces) // 2)][:2]:
        ctx.cov["samples"].append({"program": t["parts"], "schedule": t["k"], "events": [json.dumps(e) for e in t["ev"][:25]]})
    step = 12000
    for i in range(0, len(traces), step):
        vlib.check_traces(ctx, traces[i:i + step], lambda b: list(names[b]))
        if ctx.violations:
            break
    ctx.log("%d traces accepted" % ctx.cov["traces_validated_against_impl"])
    ctx.notes += ["sequentially consistent interleavings of library steps (deterministic scheduler)",
                  "programs and schedules sampled beyond the exhaustively enumerated models"]


# Equality of all kinds of callables.
CALLABLES = {"C06": "disc", "C19": "eq"}
# Very many slots and calls.
SCALE = ("C01", "C02", "C03", "C05", "C06", "C07", "C09", "C15", "C16", "C17")


def replay(path):
    with open(path) as f:
        d = json.load(f)
    ctx = Ctx("replay", "quick", 1)
    if d["harness"] == "race":
        import race
        return race.replay(ctx, d)
    if d["harness"] != "sigtest":
        import other
        return other.replay(ctx, d)
    v = tuple(d["variant"])
    b = vlib.build_sigtest(ctx, [v], "-O0")[v]
    tr = vlib.run_harness(ctx, b, [("replay", d["program"])], 1, 1, only=d["schedule"], reuse=d.get("reuse", False))
    bad = vlib.validate(ctx, tr)
    for t in tr:
        n = vlib.locate(ctx, t) if t in bad else 0
        for i, e in enumerate(t["ev"], 1):
            print("%4d %s%s" % (i, json.dumps(e), "   <== not a behaviour of the specification" if i == n else ""))
        print(t["err"])
    print("rejected" if bad else "accepted")
    return 1 if bad else 0


def main():
    a = sys.argv[1:]
    if a and a[0] == "--replay":
        return replay(a[1])
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    pid = a[0]
    for i in range(1, len(a) - 1):
        if a[i] == "--tier":
            tier = a[i + 1]
        if a[i] == "--seed":
            seed = int(a[i + 1])
    ctx = Ctx(pid, tier if tier in ("quick", "thorough") else "quick", seed)
    try:
        if pid in PROPS:
            check_signals(ctx)
            if pid in CALLABLES and not ctx.violations:
                import other
                other.callables(ctx, [CALLABLES[pid]], few=ctx.tier == "quick")
            if pid == "C18" and not ctx.violations:
                import race
                race.accesses(ctx, [("own", q, 40) for q in race.OWN] + [("C18", q, 20) for q in PROPS["C18"]["conc"]], [(0, 0)])
            if pid in SCALE and not ctx.violations:
                import other
                other.scale(ctx)
        elif pid == "C24":
            import race
            race.check(ctx)
        else:
            import other
            other.CHECKS[pid](ctx)
    except NotUsable as x:
        ctx.violation({"property": pid, "harness": "compile", "what": x.what, "stderr": x.err[-6000:]},
                      "ordinary uses of the interface do not compile (%s)" % x.what)
    except ToolError as x:
        print("ERROR", x, flush=True)
        return 2
    return ctx.finish()


if __name__ == "__main__":
    sys.exit(main())
