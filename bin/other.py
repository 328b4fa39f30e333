"""Checks of the sequential parts: callables (C20), copy-on-write pointers (C21), optionals (C22, C23).
Programs come from the specification (every operation in every state of a bounded model, and random
walks in a larger one), are executed by a harness, and the recorded traces are validated by TLC."""
import json
import os
import random
import re
import subprocess

import vlib
from vlib import ToolError, NotUsable, tlc, parallel


def build(ctx, name, quick=True, flags=()):
    out = ctx.path(name)
    ok, err = vlib.compile_(ctx, out, [os.path.join(vlib.HARNESS, name + ".cpp")], ["-O0" if quick else "-O1"] + list(flags))
    if ok:
        return out
    good, err2 = vlib.headers_ok(ctx)
    if not good:
        raise ToolError("the library does not compile:\n" + err2[-2000:])
    raise NotUsable(name, err)


def line(o):
    o = dict(o)
    n = o.pop("op")
    if "kd" in o:
        o["k"], o["d"] = o.pop("kd")
    return n + "".join(" %s=%s" % (k, v) for k, v in sorted(o.items()))


def programs(r):
    seen = []
    for ln in r["out"].splitlines():
        if ln.startswith('"PROG '):
            seen.append([line(o) for o in json.loads(json.loads(ln)[5:])])
    return sorted({tuple(p) for p in seen})


def generate(ctx, module, cfg, conf, timeout=600):
    """Every transition of the model."""
    p = ctx.path("mc.json")
    with open(p, "w") as f:
        json.dump(conf, f)
    r = tlc(ctx, module, cfg, {"MC": p}, 1, timeout, heap="2g")
    if r["timeout"] or r["rc"] != 0:
        raise ToolError("%s %s failed\n%s" % (module, cfg, r["out"][-3000:]))
    ps = programs(r)
    with ctx.lock:
        ctx.cov.setdefault("generated", []).append({"model": cfg, "conf": conf, "programs": len(ps), "states": r["distinct"], "transitions": r["generated"]})
    return ps


def walks(ctx, module, cfg, depth, n, seed, conf=None, timeout=600):
    """Random walks of the model."""
    p = ctx.path("mc.json")
    with open(p, "w") as f:
        json.dump(dict(conf or {}, depth=depth), f)
    r = tlc(ctx, module, cfg, {"MC": p}, 1, timeout, args=["-simulate", "num=%d" % n, "-depth", str(depth + 5), "-seed", str(seed)])
    ps = programs(r)
    if r["timeout"] or not ps:
        raise ToolError("%s %s failed\n%s" % (module, cfg, r["out"][-3000:]))
    with ctx.lock:
        ctx.cov.setdefault("generated", []).append({"model": cfg, "conf": conf, "walks": len(ps), "depth": depth})
    return ps


def modelcheck(ctx, module, cfg, conf=None, timeout=900, workers=3):
    p = ctx.path("mc.json")
    with open(p, "w") as f:
        json.dump(conf or {}, f)
    r = tlc(ctx, module, cfg, {"MC": p}, workers, timeout)
    if r["timeout"] or r["rc"] != 0 or "No error has been found" not in r["out"]:
        raise ToolError("%s %s: the specification does not satisfy its properties\n%s" % (module, cfg, r["out"][-4000:]))
    ctx.add("states", r["distinct"])
    ctx.add("transitions", r["generated"])
    with ctx.lock:
        ctx.cov.setdefault("models", []).append({"model": module, "cfg": cfg, "states": r["distinct"], "transitions": r["generated"],
                                                 "wall_s": round(r["wall"], 1)})


def execute(ctx, binary, progs, jobs=4):
    """Runs the programs; an abnormal end becomes the last event of the trace."""
    def one(ch):
        if not ch:
            return []
        pp, op = ctx.path("prog.txt"), ctx.path("trace.nd")
        with open(pp, "w") as f:
            for i, p in enumerate(ch):
                f.write("program p%d\n%s\n" % (i, "\n".join(p)))
        res, first, crashes = {}, 0, 0
        while first < len(ch) and crashes < 4:
            open(op, "w").close()
            r = subprocess.run([binary, pp, op, str(first)], env=vlib.ENV, capture_output=True, text=True, errors="replace")
            last = -1
            with open(op) as f:
                for ln in f:
                    try:
                        t = json.loads(ln)
                    except ValueError:
                        continue
                    if "start" in t:
                        last = t["start"]
                    else:
                        res[last] = t["ev"]
            if r.returncode == 0 and "done" in r.stdout:
                break
            if last < 0:
                raise ToolError("harness failed: " + r.stderr[-2000:])
            crashes += 1
            e = "hang" if r.returncode == -14 else "crash"
            ops = [dict(e="op", o=ln) for ln in ch[last]]
            res[last] = ops + [{"e": e, "err": r.stderr[:1500], "rc": r.returncode}]
            first = last + 1
        return [{"parts": list(ch[i]), "ev": ev, "bin": binary} for i, ev in sorted(res.items())]

    out = []
    for r in parallel(*[lambda c=progs[i::jobs]: one(c) for i in range(jobs)]):
        out += r
    ctx.add("executions", len(out))
    return out


def split(traces):
    """Abnormal ends are not behaviours."""
    bad = [t for t in traces if t["ev"] and t["ev"][-1]["e"] in ("crash", "hang", "exception")]
    return bad, [t for t in traces if t not in bad] if bad else traces


def validate(ctx, module, traces, workers=6, timeout=600):
    bad, todo = split(traces)
    rounds = 0
    while todo:
        p = ctx.path("batch.nd")
        with open(p, "w") as f:
            for t in todo:
                f.write(json.dumps({"ev": t["ev"]}, separators=(",", ":")) + "\n")
        r = tlc(ctx, module + ".tla", module + ".cfg", {"TRACES": p}, workers, timeout, heap="12g")
        os.remove(p)
        acc = {int(x) for x in re.findall(r'<<"accepted", (\d+)>>', r["out"])}
        ctx.add("traces_validated_against_impl", len(acc))
        ctx.add("trace_states", r["distinct"])
        rest = [t for i, t in enumerate(todo, 1) if i not in acc]
        if r["timeout"]:
            raise ToolError("trace validation timed out")
        if r["rc"] == 0 and "No error has been found" in r["out"]:
            return bad + rest
        rounds += 1
        m = re.findall(r"/\\ tid = (\d+)", r["out"])
        if not m or rounds > 6:
            raise ToolError("trace validation failed\n" + r["out"][-3000:])
        t = todo[int(m[-1]) - 1]
        t["tlc_error"] = r["out"][-3000:]
        bad.append(t)
        todo = [x for x in rest if x is not t]
    return bad


def locate(ctx, module, t):
    if t["ev"][-1]["e"] in ("crash", "hang", "exception"):
        return len(t["ev"])
    p, cfg = ctx.path("one.nd"), ctx.path("locate.cfg")
    with open(p, "w") as f:
        f.write(json.dumps({"ev": t["ev"]}) + "\n")
    with open(os.path.join(vlib.SPEC, module + ".cfg")) as f, open(cfg, "w") as g:
        g.write(f.read() + "INVARIANTS ProgressLog\n")
    r = tlc(ctx, module + ".tla", cfg, {"TRACES": p}, 1, 120)
    at = [int(x) for x in re.findall(r'<<"at", 1, (\d+)>>', r["out"])]
    return max(at) if at else 0


def report(ctx, module, harness, flags, bad):
    bad.sort(key=lambda t: (len(t["parts"]), t["parts"]))
    for t in bad[:2]:
        n = locate(ctx, module, t)
        what = json.dumps(t["ev"][n - 1]) if 0 < n <= len(t["ev"]) else "?"
        text = "event %d %s is not a behaviour of the specification" % (n, what[:600])
        ctx.violation({"property": ctx.prop, "harness": harness, "module": module, "flags": list(flags), "program": t["parts"],
                       "rejected_event": n, "events": [json.dumps(e) for e in t["ev"]], "text": text,
                       "tlc_error": t.get("tlc_error", "")}, text)


def conform(ctx, module, harness, binary, progs, flags=()):
    traces = execute(ctx, binary, progs)
    ops = ctx.cov.setdefault("events", {})
    for t in traces:
        for e in t["ev"]:
            if isinstance(e.get("o"), dict):
                k = e["o"]["op"] + ("/" + str(e["o"]["f"]) if "f" in e["o"] else "")
                ops[k] = ops.get(k, 0) + 1
    if traces:
        t = traces[len(traces) // 2]
        ctx.cov["samples"].append({"program": t["parts"], "events": [json.dumps(e) for e in t["ev"][:12]]})
    ctx.log("%s: %d programs executed" % (module, len(traces)))
    bad = validate(ctx, module, traces)
    if bad:
        ctx.log("%d of %d traces rejected" % (len(bad), len(traces)))
        report(ctx, module, harness, flags, bad)
    else:
        ctx.log("%d traces accepted" % ctx.cov["traces_validated_against_impl"])


def pick(progs, n, seed):
    """About n of the programs, evenly for the different last operations."""
    progs = list(progs)
    if len(progs) <= n:
        return progs
    groups = {}
    for p in progs:
        groups.setdefault(p[-1], []).append(p)
    k = -(-n // len(groups))
    r = random.Random(seed)
    out = []
    for q in sorted(groups):
        out += groups[q] if len(groups[q]) <= k else r.sample(groups[q], k)
    return sorted(out)


# ---------------------------------------------------------------- C21
def cow(ctx):
    quick = ctx.tier == "quick"
    b, ps = [], []

    def g():
        ps.extend(pick(generate(ctx, "CowGen.tla", "CowGen.cfg", {}), 9000 if quick else 10 ** 6, ctx.seed))
        ps.extend(walks(ctx, "CowGen.tla", "CowWalk.cfg", 40, 150 if quick else 3000, ctx.seed))
    parallel(lambda: b.append(build(ctx, "cowtest", quick)), g,
             lambda: modelcheck(ctx, "Cow.tla", "CowMC.cfg"))
    conform(ctx, "CowTrace", "cowtest", b[0], ps)


# ---------------------------------------------------------------- C22
def tagged(ps, k):
    return [tuple(o + " k=" + k for o in p) for p in ps]


def optional(ctx):
    quick = ctx.tier == "quick"
    b, ps = [], []

    def g(k, n):
        def run():
            a = pick(generate(ctx, "OptionalGen.tla", "OptionalGen.cfg", {"kind": k}), n if quick else 10 ** 6, ctx.seed)
            w = walks(ctx, "OptionalGen.tla", "OptionalWalk.cfg", 40, 60 if quick else 1500, ctx.seed, {"kind": k})
            with ctx.lock:
                ps.extend(tagged(a, k) + tagged(w, k))
        return run
    parallel(lambda: b.append(build(ctx, "opttest", quick)), g("V", 8000), g("N", 2500), g("M", 2500), g("I", 2000), g("B", 1200), g("D", 800), g("P", 1200),
             lambda: modelcheck(ctx, "OptionalGen.tla", "OptionalMC.cfg", {"kind": "V"}))
    conform(ctx, "OptionalTrace", "opttest", b[0], sorted(ps))
    b2, ps2 = [], []

    def h(k, n):
        def run():
            a = pick(generate(ctx, "OptionalRefGen.tla", "OptionalRefGen.cfg", {"kind": k}), n if quick else 10 ** 6, ctx.seed)
            w = walks(ctx, "OptionalRefGen.tla", "OptionalRefWalk.cfg", 40, 40 if quick else 1000, ctx.seed, {"kind": k})
            with ctx.lock:
                ps2.extend(tagged(a, k) + tagged(w, k))
        return run
    parallel(lambda: b2.append(build(ctx, "optreftest", quick)), h("R", 900), h("K", 900), h("X", 900), h("D", 300))
    conform(ctx, "OptionalRefTrace", "optreftest", b2[0], sorted(ps2))


# ---------------------------------------------------------------- C23
def compare(ctx):
    quick = ctx.tier == "quick"
    b, ps = [], []

    def g():
        a = generate(ctx, "CompareGen.tla", "CompareGen.cfg", {})
        w = walks(ctx, "CompareGen.tla", "CompareWalk.cfg", 40, 40 if quick else 1000, ctx.seed)
        for k in ("int", "str", "dbl", "cls", "uns", "ref", "cref", "rcls", "rstr"):
            ps.extend(tagged(a, k) + tagged(w, k))
    parallel(lambda: b.append(build(ctx, "cmptest", quick)), g,
             lambda: modelcheck(ctx, "Compare.tla", "CompareMC.cfg"))
    ctx.cov["exhaustive"] = True
    conform(ctx, "CompareTrace", "cmptest", b[0], sorted(ps))


# ---------------------------------------------------------------- C20, callables in C06 and C19
PARTS = ("IVL", "ZDF", "WMN", "ROP", "QST")


def callables(ctx, modes, few=False):
    """modes: of GenSpec ("calls", with walks) and PairSpec ("eq", "disc"); few: four signatures only."""
    quick = ctx.tier == "quick"
    parts = ("IV", "ZO") if few else PARTS
    bins, ps = {}, {k: [] for k in parts}
    count = {"I": 4000, "V": 2500, "Z": 4000, "R": 1000, "O": 600, "P": 600}

    def part(k):
        flags = ["-DSIGS=" + "".join("X(%s)" % g for g in k)]
        return lambda: bins.update({k: (build(ctx, "calltest", quick, flags), flags)})

    def gen(k, g):
        def run():
            progs = []
            if "calls" in modes:
                # evenly for the different callables
                a = generate(ctx, "CallableGen.tla", "CallableGen.cfg", {"sig": g, "depth": 3 if quick else 4}, timeout=3600)
                n = count.get(g, 1500) * (1 if quick else 20)
                progs += [tuple(p[::-1]) for p in pick([q[::-1] for q in a], n, ctx.seed)]
                progs += walks(ctx, "CallableGen.tla", "CallableWalk.cfg", 25, 40 if quick else 1000, ctx.seed, {"sig": g})
            for m in set(modes) - {"calls"}:
                a = generate(ctx, "CallableGen.tla", "CallablePair.cfg", {"sig": g, "mode": m})
                progs += pick(a, 400 if m == "eq" else 250, ctx.seed) if quick else a
                if "calls" not in modes:
                    progs += walks(ctx, "CallableGen.tla", "CallableWalk.cfg", 40, 60 if quick else 1000, ctx.seed, {"sig": g})
            with ctx.lock:
                ps[k].extend(tuple(o + " g=" + g for o in p) for p in progs)
        return run
    parallel(*[part(k) for k in parts], *[gen(k, g) for k in parts for g in k])
    for c in ctx.cov["generated"]:
        ctx.add("states", c.get("states", 0) or 0)
        ctx.add("transitions", c.get("transitions", 0) or 0)
    for k in parts:
        conform(ctx, "CallableTrace", "calltest", bins[k][0], sorted(ps[k]), bins[k][1])


def callable_(ctx):
    callables(ctx, ["calls"] if ctx.tier == "quick" else ["calls", "eq", "disc"])


# ---------------------------------------------------------------- very many slots and calls in C01, C02, ...
SIZES = (1, 2, 3, 127, 128, 255, 256, 257, 4096, 32768, 65535, 65536, 65537, 70001, 140000)
PLACES = (1, 2, 3, 127, 128, 255, 256, 257, 4097, 32769, 65535, 65536, 65537, 65538, 66000, 70001, 131073, 140001)


def scale_program(seed, length):
    """Large operations, emissions in between; nx: number of the next slot, ln: at most so many slots."""
    r = random.Random(seed)
    nx, ln, p = 1, {1: 0, 2: 0}, []
    kinds = ["con"] * 3 + ["disc"] * 5 + ["blk", "unblk", "erase", "mv", "query", "query", "copies", "churn", "nest"] + ["del"] * (r.random() < .3)

    def emit(s):
        p.append("emit s=%d n=%d" % (s, r.choice([n for n in (1, 1, 2, 300, 66000) if n == 1 or n * ln[s] <= 150000])))

    def con(s, n):
        nonlocal nx
        p.append("con s=%d n=%d g=%d" % (s, n, r.randint(0, 3)))
        nx += n
        ln[s] += n
    con(1, r.choice(SIZES))
    while len(p) < length:
        k, s = r.choice(kinds), r.choice((1, 1, 2))
        at = r.choice([a for a in PLACES if a < nx])
        to = at + r.choice((0, 0, 0, 1, 20, 300, 65537))
        if k == "con":
            n = r.choice(SIZES)
            if nx + n < 300000:
                con(s, n)
        elif k == "disc":
            p.append("disc a=%d b=%d f=%s" % (at, to, r.choice(("up", "down"))))
        elif k == "query":
            p.append("query a=%d b=%d f=%s" % (r.choice((at, 1)), r.choice((to, nx)), r.choice(("conn", "blk"))))
        elif k in ("blk", "unblk"):
            p.append("%s a=%d b=%d" % (k, at, to))
        elif k == "erase":
            p.append("erase s=%d g=%d" % (s, r.randint(0, 3)))
        elif k == "mv":
            s2 = r.choice((1, 2))
            p.append("mv s=%d s2=%d f=%s" % (s, s2, r.choice(("ctor", "assign"))))
            if s != s2:
                ln[s], ln[s2] = ln[s2], 0
        elif k == "del":
            p.append("del s=%d" % s)
            ln[s] = 0
        elif k == "copies":
            p.append("copies a=%d n=%d" % (at, r.choice((300, 70000))))
        elif k == "churn":
            p.append("churn s=%d n=%d" % (s, r.choice((300, 66000))))
        else:
            p.append("nest s=%d n=%d" % (s, r.choice([n for n in (2, 30, 300, 1200) if n == 2 or n * ln[s] <= 60000])))
        if r.random() < .6:
            emit(max((1, 2), key=lambda x: ln[x]) if r.random() < .8 else s)
    emit(1)
    emit(2)
    return tuple(p)


def scale(ctx, n=40):
    quick = ctx.tier == "quick"
    b = []
    parallel(lambda: b.append(build(ctx, "scaletest", False)), lambda: modelcheck(ctx, "ScaleMC.tla", "ScaleMC.cfg", {"max": 4 if quick else 6}, workers=2))
    ps = [scale_program(ctx.seed * 1009 + int(ctx.prop[1:]) * 31 + i, 16 if quick else 30) for i in range(n if quick else 12 * n)]
    conform(ctx, "ScaleTrace", "scaletest", b[0], [tuple(o + " k=" + "IV"[i % 2] for o in p) for i, p in enumerate(ps)])


CHECKS = {"C20": callable_, "C21": cow, "C22": optional, "C23": compare}


def replay(ctx, d):
    b = build(ctx, d["harness"], True, d["flags"])
    tr = execute(ctx, b, [d["program"]], 1)
    bad = validate(ctx, d["module"], tr)
    for t in tr:
        n = locate(ctx, d["module"], t) if bad else 0
        for i, e in enumerate(t["ev"], 1):
            print("%4d %s%s" % (i, json.dumps(e), "   <== not a behaviour of the specification" if i == n else ""))
    print("rejected" if bad else "accepted")
    return 1 if bad else 0
