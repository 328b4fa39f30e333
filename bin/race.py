"""Data races (C24): the library's memory accesses in executions of concurrent programs are recorded
(harness/race.cpp) and validated against the happens-before of spec/Memory.tla; spec/CowRace.tla is the
sharing protocol itself under the C++ memory model, checked exhaustively."""
import json
import os
import re
import subprocess

import gen
import vlib
from props import PROPS, CP, C_ALL
from vlib import ToolError, NotUsable, tlc, parallel

FLAGS = ["-std=gnu++17", "-g1", "-Wno-everything", "-pthread", "-I" + vlib.REPO, "-I" + vlib.HARNESS]
TSAN = ["-DRACE", "-fsanitize=thread", "-mllvm", "-tsan-instrument-func-entry-exit=0"]
PROGRAMS = [["emit"], ["emit", "disc"], ["write", "disc"]]

# Programs for which the threads share what they need to race on: lists, flags, positions, owners.
OWN = [CP(dict(C_ALL, emit=5), kinds={"fun": 4, "fu2": 1, "inc": 1, "pmf": 1, "trk": 1}, throw=.03, nested=.4),
       CP(dict(connect=3, disc=5, erase=2, connected=1), setup=(2, 4), keys=1),
       CP(dict(emit=5, block=2, unblock=2, bnew=1, bdel=1, blocked=2, connected=2, valid=1, disc=1), setup=(1, 3)),
       CP(dict(emit=4, disc=2, connect=2, sconnect=1, sdel=1, scopy=1), dt=.3, own=.2)]


def run(cmd, what):
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode and re.search(r"(Killed|out of memory|Cannot allocate|No space left)", r.stderr):
        raise ToolError(what + ":\n" + r.stderr[-2000:])
    return r


def build(ctx, variants):
    objs = {}

    def part(n):
        objs[n] = ctx.path(n + ".o")
        r = run([vlib.CXX] + FLAGS + ["-O1", "-c", os.path.join(vlib.HARNESS, n + ".cpp"), "-o", objs[n]], n)
        if r.returncode:
            raise ToolError("%s.cpp:\n%s" % (n, r.stderr[-2000:]))

    def one(v):
        o = ctx.path("racetest-%d%d.o" % v)
        cmd = [vlib.CXX] + FLAGS + TSAN + ["-O1", "-DVR=%d" % v[0], "-DVC=%d" % v[1], "-c", os.path.join(vlib.HARNESS, "sigtest.cpp"), "-o", o]
        r = run(cmd, "sigtest")
        if r.returncode:
            r = run(cmd + ["-DPLAIN"], "sigtest")
        if r.returncode:
            good, err = vlib.headers_ok(ctx)
            if not good:
                raise ToolError("the library does not compile:\n" + err[-2000:])
            raise NotUsable("racetest VR=%d VC=%d" % v, r.stderr)
        objs[v] = o

    parallel(lambda: part("sched"), lambda: part("race"), *[lambda v=v: one(v) for v in variants])
    bins = {}
    for v in variants:
        bins[v] = objs[v][:-2]
        r = run([vlib.CXX, "-pthread", "-rdynamic", objs[v], objs["sched"], objs["race"], "-ldl", "-o", bins[v]], "link")
        if r.returncode:
            raise ToolError("linking:\n" + r.stderr[-2000:])
    return bins


def anchor(binary):
    r = run(["nm", "-C", "-S", binary], "nm")
    syms = [(m.group(1), m.group(2), m.group(3), m.group(4)) for m in re.finditer(r"^([0-9a-f]+)(?: ([0-9a-f]+))? (\w) (.*)$", r.stdout, re.M)]
    base = [int(a, 16) for a, _, _, n in syms if n == "hz_anchor"][0]
    return base, syms


def statics(binary):
    """The static objects of the library: offset from hz_anchor and size."""
    base, syms = anchor(binary)
    res = []
    for a, size, kind, name in syms:
        if size and kind in "bBdDuVv" and re.search(r"(^|[^\w:])(sig|opt)::", name) and not re.match(r"(vtable|typeinfo|VTT)", name):
            res.append("%d %d" % (int(a, 16) - base, int(size, 16)))
    return " ".join(res)


def model(ctx, name, prog, bug="none", timeout=600):
    p = ctx.path("mc.json")
    with open(p, "w") as f:
        json.dump({"prog": prog}, f)
    r = tlc(ctx, "CowRace.tla", "CowRace.cfg", {"MC": p, "BUG": bug}, 2, timeout)
    with ctx.lock:
        if bug == "none":
            if r["rc"] != 0 or "No error has been found" not in r["out"]:
                raise ToolError("model %s does not satisfy its properties\n%s" % (name, r["out"][-3000:]))
            ctx.cov["states"] += r["distinct"]
            ctx.cov["transitions"] += r["generated"]
            ctx.cov.setdefault("models", []).append({"model": name, "prog": prog, "cfg": "CowRace.cfg", "states": r["distinct"], "transitions": r["generated"]})
        else:
            if "Invariant NoRace is violated" not in r["out"]:
                raise ToolError("model %s: the faulty variant %s is not found\n%s" % (name, bug, r["out"][-2000:]))
            ctx.cov.setdefault("controls", []).append({"model": name, "variant": bug, "states": r["distinct"]})


def models(ctx):
    quick = ctx.tier == "quick"
    model(ctx, "sharing", PROGRAMS)
    for b in ("nofence", "unlocked", "inplace", "plainflag", "idxearly", "relaxed", "release")[:: 3 if quick else 1]:
        model(ctx, "sharing", PROGRAMS, b)
    if not quick:
        for i, prog in enumerate([[["emit", "emit"], ["disc", "emit"], ["write", "disc", "query"]],
                                  [["emit", "write"], ["emit", "disc"], ["emit", "write"]],
                                  [["emit", "emit", "emit"], ["emit", "write"], ["write", "write"]],
                                  [["disc", "emit"], ["disc", "emit"], ["disc", "emit"]]]):
            model(ctx, "sharing-%d" % (i + 2), prog, timeout=7200)


def validate(ctx, traces, workers=6, timeout=400):
    """The traces with a race."""
    todo = [t for t in traces if t["ev"]]
    if not todo:
        return []
    p = ctx.path("race.nd")
    with open(p, "w") as f:
        for t in todo:
            f.write(json.dumps({k: t[k] for k in ("n", "sh", "ev")}, separators=(",", ":")) + "\n")
    r = tlc(ctx, "MemoryTrace.tla", "MemoryTrace.cfg", {"TRACES": p}, workers, timeout, heap="12g")
    os.remove(p)
    acc = {int(x) for x in re.findall(r'<<"accepted", (\d+)>>', r["out"])}
    ctx.add("traces_validated_against_impl", len(acc))
    ctx.add("trace_states", r["distinct"])
    rest = [t for i, t in enumerate(todo, 1) if i not in acc]
    if r["timeout"]:
        ctx.add("undecided_traces", len(rest))
        return []
    if r["rc"] != 0 or "No error has been found" not in r["out"]:
        raise ToolError("trace validation failed\n" + r["out"][-3000:])
    return rest


def locate(ctx, t):
    p = ctx.path("one.nd")
    with open(p, "w") as f:
        f.write(json.dumps({k: t[k] for k in ("n", "sh", "ev")}) + "\n")
    cfg = ctx.path("locate.cfg")
    with open(os.path.join(vlib.SPEC, "MemoryTrace.cfg")) as f:
        s = f.read()
    with open(cfg, "w") as f:
        f.write(s + "INVARIANTS ProgressLog\n")
    r = tlc(ctx, "MemoryTrace.tla", cfg, {"TRACES": p}, 1, 120)
    at = [int(x) for x in re.findall(r'<<"at", 1, (\d+)>>', r["out"])]
    return max(at) if at else 0


def symbol(binary, base, pc):
    r = run(["addr2line", "-Cfsie", binary, hex(base + pc - 1)], "addr2line").stdout.splitlines()
    return " < ".join(f + " " + l for f, l in zip(r[:4:2], r[1:4:2]))


def explain(ctx, binary, prog, sched):
    """Executes again, recording where the accesses come from: (events, race, text)."""
    again = vlib.run_harness(ctx, binary, [prog], 1, 1, only=sched, extra={"HZ_PC": "1", "HZ_STATICS": statics(binary)})
    again = [a for a in again if a["ev"] and "e" not in a["ev"][-1]]
    if not again:
        return [], 0, ""
    t = again[0]
    n = locate(ctx, t)
    if not 0 < n <= len(t["ev"]):
        return t["ev"], 0, ""
    base, _ = anchor(binary)
    for e in t["ev"]:
        e["at"] = symbol(binary, base, e["pc"]) if e["k"] in ("r", "w", "ld", "st", "rm") and abs(e["pc"]) < 1 << 40 else ""
    e = t["ev"][n - 1]
    other = [f for f in t["ev"][:n - 1] if f["t"] != e["t"] and set(f["x"]) & set(e["x"]) and f["at"]]
    text = "thread %d %s [%s]" % (e["t"], e["k"], e["at"])
    if other:
        text += ", unordered with thread %d %s [%s] or an earlier access" % (other[-1]["t"], other[-1]["k"], other[-1]["at"])
    return t["ev"], n, text


def check(ctx):
    profs = [("own", p, 70) for p in OWN] + [(q, p, 20) for q in ("C18", "C16", "C10", "C13", "C08", "C14") for p in PROPS[q]["conc"]]
    accesses(ctx, profs, [(0, 0), (1, 1)])


def accesses(ctx, profs, variants):
    """Records and validates the accesses of n programs of each profile."""
    quick = ctx.tier == "quick"
    f = 1 if quick else 10
    bins = {}
    parallel(lambda: bins.update(build(ctx, variants)), lambda: models(ctx))
    ctx.log("built, models checked: %s states" % ctx.cov["states"])
    progs = []
    for i, (q, p, n) in enumerate(profs):
        progs += gen.conc_programs(p, ctx.seed * 43 + i, n * f, "%s.%d." % (q, i))
    ctx.add("programs", len(progs))
    names = {b: v for v, b in bins.items()}
    traces = []
    for r in parallel(*[lambda v=v, i=i: vlib.run_harness(ctx, bins[v], progs[i::len(variants)], 20 if quick else 60, ctx.seed, limit=60 * f, jobs=3,
                                                         reuse=False, extra={"HZ_STATICS": statics(bins[v])}) for i, v in enumerate(variants)]):
        traces += r
    ends = [t for t in traces if t["ev"] and "e" in t["ev"][-1]]
    traces = [t for t in traces if not (t["ev"] and "e" in t["ev"][-1])]
    ctx.cov["access_traces"] = len(traces) - len(ends)
    ctx.cov["abnormal_ends"] = len(ends)
    if ends:
        ctx.log("%d executions ended abnormally: nothing recorded, left to the other properties" % len(ends))
    seen, todo = set(), []
    for t in traces:
        k = json.dumps(t["ev"])
        if t["ev"] and k not in seen:
            seen.add(k)
            todo.append(t)
    ctx.cov["executions_without_sharing"] = len([t for t in traces if not t["ev"]])
    ev = {}
    for t in todo:
        for e in t["ev"]:
            ev[e["k"]] = ev.get(e["k"], 0) + 1
    ctx.cov["access_events"] = ev
    ctx.cov["static_objects"] = len(statics(bins[variants[0]]).split()) // 2
    ctx.log("%d executions, %d distinct traces" % (ctx.cov["executions"], len(todo)))
    for t in todo[:: max(1, len(todo) // 2)][:2]:
        ctx.cov["samples"].append({"program": t["parts"], "schedule": t["k"], "events": [json.dumps(e) for e in t["ev"][:25]]})
    if len(ends) > len(traces):
        raise ToolError("most executions ended abnormally: " + json.dumps(ends[0]["ev"][-1]))
    for i in range(0, len(todo), 10000):
        bad = validate(ctx, todo[i:i + 10000])
        bad.sort(key=lambda t: len(t["ev"]))
        for t in bad[:2]:
            events, n, text = explain(ctx, t["bin"], (t["p"], t["parts"]), t["k"])
            text = "program %s schedule %s: data race: %s" % (t["p"], t["k"], text or "(see the events)")
            ctx.violation({"property": ctx.prop, "harness": "race", "variant": list(names[t["bin"]]), "program": t["parts"], "schedule": t["k"],
                           "rejected_event": n, "events": [json.dumps(e) for e in events], "text": text}, text)
        if ctx.violations:
            break
    ctx.log("%d distinct traces of accesses checked" % len(todo))
    ctx.notes += ["happens-before of sequentially consistent executions under a deterministic scheduler; weakly ordered values only in CowRace",
                  "accesses of the library's headers to memory it allocated, signals and static objects; not of the standard library's binary"]


def replay(ctx, d):
    v = tuple(d["variant"])
    b = build(ctx, [v])[v]
    ev, n, text = explain(ctx, b, ("replay", d["program"]), d["schedule"])
    for i, e in enumerate(ev, 1):
        print("%4d %s%s" % (i, json.dumps(e), "   <== races" if i == n else ""))
    print(text or "accepted")
    return 1 if n else 0
