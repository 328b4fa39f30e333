"""Machinery shared by the checks: building the harness from /repo, running TLC, replaying
programs against the library and validating the recorded traces against the specification."""
import concurrent.futures as cf
import json
import os
import re
import shutil
import subprocess
import sys
import threading
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, "spec")
HARNESS = os.path.join(VERIF, "harness")
REPO = os.environ.get("VERIF_REPO", "/repo")
CXX = "clang++-18"
SAN = ["-std=gnu++17", "-g1", "-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-fno-sanitize=vptr",
       "-Wno-everything", "-pthread", "-I" + REPO, "-I" + HARNESS]
COV = ["-fsanitize-coverage=trace-loads,trace-stores"]
ENV = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:abort_on_error=0", UBSAN_OPTIONS="print_stacktrace=0")


class ToolError(Exception):
    """The check could not do its work: no verdict."""


class Ctx:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.t0 = time.time()
        self.dir = os.path.join(VERIF, "out", prop)
        shutil.rmtree(self.dir, ignore_errors=True)
        os.makedirs(self.dir)
        self.lock = threading.Lock()
        self.n = 0
        self.cov = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "samples": []}
        self.notes = []
        self.violations = []        # (replay path, text)

    def path(self, name):
        with self.lock:
            self.n += 1
            return os.path.join(self.dir, "%03d-%s" % (self.n, name))

    def add(self, key, v):
        with self.lock:
            self.cov[key] = self.cov.get(key, 0) + v

    def log(self, *a):
        print("[%6.1fs]" % (time.time() - self.t0), *a, flush=True)

    def violation(self, data, text):
        d = os.path.join(VERIF, "out", "replay")
        os.makedirs(d, exist_ok=True)
        p = os.path.join(d, "%s-%d.json" % (self.prop, len(self.violations) + 1))
        with open(p, "w") as f:
            json.dump(data, f, indent=1)
        self.violations.append((p, text))
        self.log("violation:", text)

    def finish(self, level="model_checking"):
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": level, "coverage": self.cov,
              "assumptions": self.notes, "wall_s": round(time.time() - self.t0, 2), "violations": len(self.violations)}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        p = os.path.join(VERIF, "evidence", self.prop + ".json")
        with open(p + ".tmp", "w") as f:
            json.dump(ev, f, indent=1)
        os.replace(p + ".tmp", p)
        for path, text in self.violations:
            print("VIOLATION property=%s replay=%s" % (self.prop, os.path.relpath(path, VERIF)), flush=True)
        shutil.rmtree(self.dir, ignore_errors=True)
        return 1 if self.violations else 0


def parallel(*jobs):
    """Runs the functions at the same time; the first exception is raised."""
    with cf.ThreadPoolExecutor(max_workers=max(1, len(jobs))) as ex:
        fs = [ex.submit(j) for j in jobs]
        return [f.result() for f in fs]


# ---------------------------------------------------------------- building
def compile_(ctx, out, srcs, flags):
    cmd = [CXX] + SAN + flags + srcs + ["-o", out]
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode and re.search(r"(Killed|out of memory|Cannot allocate|No space left)", r.stderr):
        raise ToolError("compiler failed:\n" + r.stderr[-2000:])
    return r.returncode == 0, r.stderr


def headers_ok(ctx):
    """Do the headers compile for an ordinary user?"""
    src = ctx.path("plain.cpp")
    with open(src, "w") as f:
        f.write('#include <signals.hpp>\nint f(int a) { return a; }\nint main() { sig::signal<int(int)> s; auto c = s.connect(&f);'
                ' s(1); c.disconnect(); return 0; }\n')
    ok, err = compile_(ctx, src[:-4], [src], [])
    return ok, err


class NotUsable(Exception):
    """Ordinary uses of the public interface do not compile any more."""

    def __init__(self, what, err):
        Exception.__init__(self, what)
        self.what, self.err = what, err


def build_sigtest(ctx, variants, opt):
    """Builds the harness for all variants; returns {variant: binary}."""
    sched = ctx.path("sched.o")
    ok, err = compile_(ctx, sched, ["-c", os.path.join(HARNESS, "sched.cpp")], ["-O1"])
    if not ok:
        raise ToolError("sched.cpp:\n" + err[-2000:])

    def one(v):
        out = ctx.path("sigtest-%d%d" % v)
        fl = [opt] + COV + ["-DVR=%d" % v[0], "-DVC=%d" % v[1]]
        src = [os.path.join(HARNESS, "sigtest.cpp"), sched]
        ok, err = compile_(ctx, out, src, fl)
        if ok:
            return out
        # The library does not compile with the instrumented mutex and atomics: use the real ones
        # (mutexes are still scheduled through pthread_mutex_lock).
        ok, err2 = compile_(ctx, out, src, fl + ["-DPLAIN"])
        if ok:
            with ctx.lock:
                ctx.notes.append("built without instrumented atomics: " + err[:300])
            return out
        good, err3 = headers_ok(ctx)
        if not good:
            raise ToolError("the library does not compile:\n" + err3[-2000:])
        raise NotUsable("sigtest VR=%d VC=%d" % v, err2)

    bins = parallel(*[lambda v=v: one(v) for v in variants])
    return dict(zip(variants, bins))


# ---------------------------------------------------------------- TLC
def tlc(ctx, module, cfg, env=None, workers=4, timeout=600, args=(), heap="6g", simulate=None):
    meta = ctx.path("tlc")
    cmd = ["java", "-Xmx" + heap, "-XX:+UseParallelGC", "-Djava.io.tmpdir=" + os.path.dirname(meta), "-cp",
           "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar", "tlc2.TLC",
           "-workers", str(workers), "-noGenerateSpecTE", "-metadir", meta, "-config", cfg]
    cmd += list(args) + [module]
    e = dict(os.environ)
    e.update(env or {})
    t = time.time()
    try:
        r = subprocess.run(cmd, cwd=SPEC, env=e, capture_output=True, text=True, timeout=timeout)
        out, rc, to = r.stdout + r.stderr, r.returncode, False
    except subprocess.TimeoutExpired as x:
        out = (x.stdout or b"").decode(errors="replace") if isinstance(x.stdout, bytes) else (x.stdout or "")
        rc, to = -1, True
    shutil.rmtree(meta, ignore_errors=True)
    m = re.findall(r"(\d+) states generated, (\d+) distinct states found", out)
    gen, dist = (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)
    return {"out": out, "rc": rc, "timeout": to, "generated": gen, "distinct": dist, "wall": time.time() - t}


def control(ctx, name, model, bug):
    """A faulty variant of the algorithm must be told apart from the specification."""
    p = ctx.path("mc.json")
    with open(p, "w") as f:
        json.dump(dict(model, hist=False, conc=True), f)
    r = tlc(ctx, "SignalsImpl.tla", "SignalsImpl.cfg", {"MC": p, "BUG": bug}, 4, 3600)
    if r["rc"] not in (11, 12, 13) or not re.search("is violated|Deadlock reached", r["out"]):
        raise ToolError("model %s: the faulty variant %s is not found\n%s" % (name, bug, r["out"][-2000:]))
    with ctx.lock:
        ctx.cov.setdefault("controls", []).append({"model": name, "variant": bug, "states": r["distinct"]})


def model_check(ctx, name, model, cfg="SignalsMC.cfg", workers=4, timeout=600, module="SignalsMC.tla"):
    """Exhaustive check of a bounded model; the specification must satisfy its own properties."""
    p = ctx.path("mc.json")
    with open(p, "w") as f:
        json.dump(dict(model, hist=False, conc=True), f)
    r = tlc(ctx, module, cfg, {"MC": p, "BUG": "none"}, workers, timeout)
    if r["timeout"]:
        raise ToolError("model %s: TLC timed out" % name)
    if r["rc"] != 0 or "No error has been found" not in r["out"]:
        raise ToolError("model %s: the specification does not satisfy its properties\n%s" % (name, r["out"][-4000:]))
    ctx.add("states", r["distinct"])
    ctx.add("transitions", r["generated"])
    with ctx.lock:
        ctx.cov.setdefault("models", []).append({"model": name, "cfg": cfg, "states": r["distinct"], "transitions": r["generated"],
                                                 "wall_s": round(r["wall"], 1)})


def op_line(o):
    o = dict(o)
    n = o.pop("op")
    o.pop("c", None)
    o.pop("w", None)
    if n == "fin":
        return "fin v=%d" % o["v"]
    if n == "throw":
        return "throw x=%d" % o["x"]
    for k in ("dt", "cp"):
        o[k] = 1 if o.get(k) else ""
    return n + "".join(" %s=%s" % (k, v) for k, v in sorted(o.items()) if v != "")


def model_programs(ctx, name, model, timeout=300):
    """All programs of a bounded model, as TLC enumerates them."""
    p = ctx.path("gen.json")
    with open(p, "w") as f:
        json.dump(dict(model, hist=True, conc=False), f)
    r = tlc(ctx, "SignalsMC.tla", "SignalsGen.cfg", {"MC": p}, 2, timeout)
    if r["timeout"] or r["rc"] != 0:
        raise ToolError("generation from %s failed\n%s" % (name, r["out"][-3000:]))
    seen, progs = set(), []
    for line in r["out"].splitlines():
        if not line.startswith('"PROG '):
            continue
        h = json.loads(json.loads(line)[5:])
        if isinstance(h, list):
            h = {str(i): v for i, v in enumerate(h)}
        parts = [[op_line(o) for o in h.get(str(t), [])] for t in range(3)]
        key = json.dumps(parts)
        if key not in seen:
            seen.add(key)
            progs.append(parts)
    progs.sort()
    conc = any(m > 0 for m in model["max"][1:])
    sigs = sorted({o["s"] for o in model["setup"] if o["op"] == "newsig"})
    epi = ["probe"] + ["emit s=%s a=%d rf=1 m=last" % (s, 91 + i) for i, s in enumerate(sigs)]
    res = []
    for i, q in enumerate(progs):
        used = [t for t in range(1, 3) if model["max"][t] > 0]
        parts = [q[0]] + [q[t] for t in used] + [epi] if conc else [q[0] + epi]
        res.append(("%s.%d" % (name, i), parts))
    with ctx.lock:
        ctx.cov.setdefault("generated", []).append({"model": name, "programs": len(res)})
    return res


# ---------------------------------------------------------------- running the library
def write_programs(progs, path):
    with open(path, "w") as f:
        for pid, parts in progs:
            f.write("program %s\n" % pid)
            for p in parts:
                f.write("part\n")
                for d in p:
                    f.write(d + "\n")


REUSE = ":quarantine_size_mb=0:thread_local_quarantine_size_kb=0"     # memory is used again at once


def run_harness(ctx, binary, progs, schedules, seed, limit=60, only=None, jobs=1, reuse=None, extra=None):
    """Executes programs; returns the recorded traces (as dicts with the program attached).

    reuse: freed memory is used again at once (default: by half of the processes)."""
    chunks = [progs[i::jobs] for i in range(jobs)]

    def one(ch, i):
        if not ch:
            return []
        pp, op = ctx.path("prog.txt"), ctx.path("trace.nd")
        write_programs(ch, pp)
        cmd = [binary, pp, op, str(schedules), str(seed + i)]
        if only:
            cmd += [ch[0][0], only]
        again = i % 2 == 1 if reuse is None else reuse
        env = dict(ENV, HZ_LIMIT=str(limit), **(extra or {}))
        if again:
            env["ASAN_OPTIONS"] += REUSE
        r = subprocess.run(cmd, env=env, capture_output=True, text=True, errors="replace",
                           timeout=limit * 4 + 600)
        if r.returncode:
            raise ToolError("harness failed (%d): %s" % (r.returncode, r.stderr[-2000:]))
        m = re.search(r"runs (\d+) crashes (\d+)", r.stdout)
        ctx.add("executions", int(m.group(1)))
        by = dict(ch)
        res = []
        with open(op) as f:
            for line in f:
                t = json.loads(line)
                t["parts"] = by[t["p"]]
                t["bin"], t["reuse"] = binary, again
                t["run"] = (ch, schedules, seed + i, limit)
                t["err"] = r.stderr[:1500] if int(m.group(2)) else ""
                res.append(t)
        os.remove(op)
        os.remove(pp)
        return res

    out = []
    for r in parallel(*[lambda c=c, i=i: one(c, i) for i, c in enumerate(chunks)]):
        out += r
    return out


# ---------------------------------------------------------------- trace validation
def annotate(ev):
    """Adds to every event which event of each thread comes next, and to every call its outcome."""
    stacks = {}
    for e in ev:
        st = stacks.setdefault(e["t"], [])
        if e["e"] == "call":
            st.append(e)
        elif e["e"] == "ret" and st:
            c = st.pop()
            if c["o"]["op"] not in ("emit", "slcall"):
                c["o"]["q"], c["o"]["qx"] = e["r"], e["x"]
    nx = [0, 0, 0, 0]
    for i in range(len(ev) - 1, -1, -1):
        nx[ev[i]["t"]] = i + 1
        ev[i]["nx"] = list(nx)
    return ev


FATAL = ("crash", "deadlock", "hang", "overflow")


def validate(ctx, traces, workers=8, timeout=400):
    """Returns the traces that are not behaviours of the specification."""
    todo = list(traces)
    bad = []
    # An abnormal end is not a behaviour, whatever happened before.
    for t in list(todo):
        if t["ev"] and t["ev"][-1]["e"] in FATAL:
            bad.append(t)
            todo.remove(t)
    rounds = 0
    while todo:
        rounds += 1
        p = ctx.path("batch.nd")
        with open(p, "w") as f:
            for t in todo:
                ev = annotate(json.loads(json.dumps(t["ev"])))
                f.write(json.dumps({"p": t["p"], "k": t["k"], "ev": ev}, separators=(",", ":")) + "\n")
        r = tlc(ctx, "SignalsTrace.tla", "SignalsTrace.cfg", {"TRACES": p}, workers, timeout, heap="16g")
        os.remove(p)
        acc = {int(x) for x in re.findall(r'<<"accepted", (\d+)>>', r["out"])}
        ctx.add("traces_validated_against_impl", len(acc))
        ctx.add("trace_states", r["distinct"])
        rest = [t for i, t in enumerate(todo, 1) if i not in acc]
        if r["timeout"]:
            ctx.add("undecided_traces", len(rest))
            ctx.log("trace validation timed out with %d traces undecided" % len(rest))
            return bad
        if r["rc"] == 0 and "No error has been found" in r["out"]:
            return bad + rest
        # An evaluation error: the event makes no sense to the specification at all.
        m = re.findall(r"/\\ tid = (\d+)", r["out"])
        if not m or rounds > 6:
            raise ToolError("trace validation failed\n" + r["out"][-3000:])
        t = todo[int(m[-1]) - 1]
        t["tlc_error"] = r["out"][-3000:]
        bad.append(t)
        todo = [x for x in rest if x is not t]
    return bad


def locate(ctx, t):
    """The first event of a rejected trace that no behaviour explains."""
    if t["ev"][-1]["e"] in FATAL:
        return len(t["ev"])
    p = ctx.path("one.nd")
    with open(p, "w") as f:
        f.write(json.dumps({"p": t["p"], "k": t["k"], "ev": annotate(json.loads(json.dumps(t["ev"])))}) + "\n")
    cfg = ctx.path("locate.cfg")
    with open(os.path.join(SPEC, "SignalsTrace.cfg")) as f:
        s = f.read()
    with open(cfg, "w") as f:
        f.write(s.replace("INVARIANTS", "INVARIANTS ProgressLog"))
    r = tlc(ctx, "SignalsTrace.tla", cfg, {"TRACES": p}, 1, 120)
    at = [int(x) for x in re.findall(r'<<"at", 1, (\d+)>>', r["out"])]
    return max(at) if at else 0


def check_traces(ctx, traces, variant_of):
    """Validates; rejected traces are reproduced and reported."""
    bad = validate(ctx, traces)
    if not bad:
        return
    ctx.log("%d of %d traces rejected" % (len(bad), len(traces)))
    bad.sort(key=lambda t: len(t["ev"]))
    for t in bad[:6]:
        fatal = t["ev"][-1]["e"] if t["ev"] and t["ev"][-1]["e"] in FATAL else ""
        if fatal:
            again = run_harness(ctx, t["bin"], [(t["p"], t["parts"])], 1, 1, only=t["k"], reuse=t["reuse"])
            if not validate(ctx, again):
                # It may take what the programs before it left behind.
                ch, sch, seed, limit = t["run"]
                k = [p for p, _ in ch].index(t["p"])
                again = run_harness(ctx, t["bin"], ch[:k + 1], sch, seed, limit, reuse=t["reuse"])
                again = [a for a in again if a["p"] == t["p"] and a["ev"] and a["ev"][-1]["e"] in FATAL]
            if not again:
                ctx.log("not reproduced, ignored: %s of %s %s" % (fatal, t["p"], t["k"]))
                ctx.notes.append("abnormal end that did not reproduce: %s %s %s" % (fatal, t["p"], t["k"]))
                continue
        n = locate(ctx, t)
        what = json.dumps(t["ev"][n - 1]) if 0 < n <= len(t["ev"]) else "?"
        text = "program %s schedule %s: event %d %s is not a behaviour of the specification" % (t["p"], t["k"], n, what)
        ctx.violation({"property": ctx.prop, "harness": "sigtest", "variant": variant_of(t["bin"]), "program": t["parts"], "schedule": t["k"], "reuse": t["reuse"],
                       "rejected_event": n, "events": [json.dumps(e) for e in t["ev"]], "text": text,
                       "stderr": t.get("err", ""), "tlc_error": t.get("tlc_error", "")}, text)
        if len(ctx.violations) >= 2:
            break
