"""Test programs for harness/sigtest: random programs by profile, and concurrent programs.

A program is a list of parts; a part is a list of decisions (strings, see sigtest.cpp):
part 0 is the set-up, then one part per thread, then the epilogue.  A sequential program has a
single part.  A decision is a public call, or how a running slot ends (fin / throw)."""
import random

ALLK = ["fun", "fu2", "inc", "in2", "pmf", "pm2", "trk"]
CMP = ["fun", "fu2", "pmf", "pm2"]


class Profile:
    def __init__(self, **kw):
        self.ops = {}            # op -> weight
        self.kinds = {"fun": 4, "fu2": 1, "inc": 2, "in2": 1, "pmf": 1, "pm2": 1, "trk": 1}
        self.sigs = ["s1"]
        self.keys = 3
        self.throw = 0.0
        self.fin = 0.45          # chance that a decision inside of a slot ends it
        self.length = (12, 40)
        self.prefill = (0, 4)    # connections before the random part
        self.h = ["c1", "c2", "c3", "c4", "c5", "c6"]
        self.k = ["k1", "k2", "k3"]
        self.b = ["b1", "b2"]
        self.objs = [1, 2, 3]
        self.modes = ["last"]
        self.own = 0.0
        self.dt = 0.0            # chance that the destructor of a callable runs user code
        self.cp = 0.0            # chance that copying a callable runs user code
        self.om = 0.0            # chance that memory runs out
        self.recycle = False     # disconnect what a variable refers to before it is overwritten
        self.rf = True
        self.chase = 0.0         # chance that a connection is disconnected just before it is copied or moved, and looked at afterwards
        self.__dict__.update(kw)


def pick(r, w):
    ks = list(w)
    return r.choices(ks, [w[k] for k in ks])[0]


class Gen:
    def __init__(self, prof, seed):
        self.p = prof
        self.r = random.Random(seed)
        self.val = 0

    def h(self):
        return self.r.choice(self.p.h)

    def hk(self):
        return self.r.choice(self.p.h + self.p.k) if self.p.k else self.h()

    def kind(self, cmp=False):
        while True:
            k = pick(self.r, self.p.kinds)
            if not cmp or k in CMP:
                return k

    def key(self):
        return self.r.randint(1, self.p.keys)

    def emit(self, s=None):
        r = self.r
        self.val = (self.val + 7) % 90 + 1
        return "emit s=%s a=%d rf=%d m=%s fl=%d" % (s or r.choice(self.p.sigs), self.val, r.randint(0, 5), r.choice(self.p.modes), r.randint(0, 5))

    def connect(self, s=None, h=None, kind=None):
        r = self.r
        k = kind or self.kind()
        g = r.choice(self.p.k) if self.p.own and r.random() < self.p.own and k in ("fun", "fu2", "inc", "in2") else ""
        dt = " dt=1" if self.p.dt and r.random() < self.p.dt and k in ("fun", "fu2", "inc", "in2") else ""
        return "connect s=%s h=%s kind=%s key=%d o=%d fl=%d%s%s%s" % (s or r.choice(self.p.sigs), h or self.h(), k, self.key(),
                                                                 r.choice(self.p.objs), r.randint(0, 5), " g=" + g if g else "", dt, self.arm())

    def arm(self, om=True):
        r, p = self.r, self.p
        if p.cp and r.random() < p.cp:
            return " cp=1"
        return " om=%d" % r.randint(1, 6) if om and p.om and r.random() < p.om else ""

    def fin(self):
        r = self.r
        rf = " rf=%d" % r.randint(0, 9) if self.p.rf and r.random() < 0.4 else ""
        if r.random() < self.p.throw:
            return "throw x=%d%s" % (r.randint(1, 16), rf)
        return "fin v=%d%s" % (r.randint(0, 60), rf)

    def op(self):
        r, p = self.r, self.p
        n = pick(r, p.ops)
        s = r.choice(p.sigs)
        fl = "fl=%d" % r.randint(0, 5)
        if n == "emit":
            return self.emit(s)
        if n == "connect":
            return self.connect(s)
        if n == "sconnect":
            k = r.choice(p.k)
            base = self.connect(s, k).replace("connect", "sconnect", 1)
            return base
        if n == "connectx":
            return "connectx s=%s" % s
        if n in ("disc", "block", "unblock", "connected", "blocked", "valid"):
            return "%s h=%s" % (n, self.hk())
        if n == "erase":
            return "erase s=%s kind=%s key=%d %s%s" % (s, self.kind(r.random() < 0.8), self.key(), fl, self.arm(False))
        if n in ("hcopy", "hmove"):
            return "%s h=%s g=%s %s" % (n, self.h(), self.hk(), fl)
        if n == "hswap":
            if p.b and r.random() < 0.25:
                return "hswap h=%s g=%s %s" % (r.choice(p.b), r.choice(p.b), fl)
            return "hswap h=%s g=%s %s" % (self.hk(), self.hk(), fl)
        if n == "probe":
            return "probe"
        if n == "hreset":
            return "hreset h=%s" % self.h()
        if n == "scopy":
            return "scopy h=%s g=%s %s" % (r.choice(p.k), self.h(), fl)
        if n == "smove":
            return "smove h=%s g=%s %s" % (r.choice(p.k), self.hk(), fl)
        if n == "sdel":
            return "sdel h=%s" % r.choice(p.k)
        if n == "bnew":
            return "bnew h=%s g=%s" % (r.choice(p.b), self.hk())
        if n == "bmove":
            return "bmove h=%s g=%s %s" % (r.choice(p.b), r.choice(p.b), fl)
        if n == "bdel":
            return "bdel h=%s" % r.choice(p.b)
        if n in ("newsig", "delsig"):
            return "%s s=%s" % (n, s)
        if n in ("mctor", "massign"):
            return "%s d=%s s=%s" % (n, r.choice(p.sigs), s)
        if n in ("newobj", "reset"):
            return "%s o=%d" % (n, r.choice(p.objs))
        v, v2 = r.randint(1, 4), r.randint(1, 4)
        if n == "slmk":
            return "slmk v=%d kind=%s key=%d o=%d" % (v, self.kind(), self.key(), r.choice(p.objs))
        if n in ("slnull", "slblock", "slunblock", "slconn", "slblkd", "slbool", "sldisc"):
            return "%s v=%d" % (n, v)
        if n in ("slcopy", "slmove", "sleq"):
            return "%s v=%d v2=%d %s%s" % (n, v, v2, fl, self.arm() if n == "slcopy" else "")
        if n == "slcall":
            self.val = (self.val + 7) % 90 + 1
            return "slcall v=%d a=%d rf=%d" % (v, self.val, r.randint(0, 5))
        if n == "connslot":
            return "connslot s=%s v=%d h=%s%s" % (s, v, self.h(), self.arm())
        if n == "erasesl":
            return "erasesl s=%s v=%d" % (s, v)
        raise ValueError(n)

    def setup(self):
        r, p = self.r, self.p
        d = ["newsig s=%s" % s for s in p.sigs]
        if "trk" in p.kinds:
            d += ["newobj o=%d" % o for o in p.objs]
        hs = list(p.h)
        r.shuffle(hs)
        for i in range(r.randint(*p.prefill)):
            d.append(self.connect(h=hs[i % len(hs)]))
        return d

    def program(self):
        r, p = self.r, self.p
        d = self.setup()
        n = r.randint(*p.length)
        inside = 0          # guess of how many slot bodies are pending
        for _ in range(n):
            if inside > 0 and r.random() < p.fin:
                d.append(self.fin())
                inside -= 1
                continue
            o = self.op()
            if p.recycle and o.startswith("conn") and " h=" in o:
                d.append("disc h=" + o.split(" h=")[1].split()[0])
            chase = p.chase and o.split()[0] in ("hmove", "hcopy", "hswap", "scopy", "smove") and r.random() < p.chase
            if chase and r.random() < .6:
                d.append("disc h=" + o.split(" g=")[1].split()[0])
            d.append(o)
            if chase:
                d.append("probe")
            if o.startswith("emit") or o.startswith("slcall"):
                inside += r.randint(1, 4)
            elif " cp=1" in o:
                inside += 1
            elif p.dt and o.split()[0] in ("disc", "erase", "sdel", "delsig", "scopy", "smove", "sconnect") and r.random() < .6:
                inside += 1
        d.append("probe")
        d.append(self.emit(p.sigs[0]))
        for _ in range(r.randint(0, 4)):
            d.append(self.fin())
        for s in p.sigs:
            d.append(self.emit(s))
        return [d]


def random_programs(prof, seed, n, prefix):
    return [("%s%d" % (prefix, i), Gen(prof, seed * 100003 + i).program()) for i in range(n)]


def big_program(seed):
    """A signal with hundreds of slots; some of the connections are kept."""
    r = random.Random(seed)
    n = r.choice([r.randint(20, 70), r.randint(120, 140), r.randint(250, 275), r.randint(280, 330)])
    keep = sorted(set([0, n - 1] + [r.randint(0, n - 1) for _ in range(3)] + [i for i in (127, 255, 256, 257) if i < n]))
    r.shuffle(keep)
    keep = keep[:6]
    hs = {i: "c%d" % (k + 1) for k, i in enumerate(keep)}
    d = ["newsig s=s1"]
    for i in range(n):
        d.append("connect s=s1 h=%s kind=%s key=%d fl=%d" % (hs.get(i, "c8"), r.choice(["fun", "fu2", "inc", "fun"]), i + 10, r.randint(0, 5)))

    def op():
        h = r.choice(sorted(hs.values()) + ["c8"])
        return r.choice(["disc h=" + h, "disc h=" + h, "erase s=s1 kind=fun key=%d fl=%d" % (r.randint(10, n + 10), r.randint(0, 5)), "block h=" + h,
                         "unblock h=" + h, "connect s=s1 h=c7 kind=fun key=5 fl=%d" % r.randint(0, 5)])

    def emit(nested):
        d.append("emit s=s1 a=%d rf=1 m=last fl=%d" % (r.randint(1, 90), r.randint(0, 5)))
        for i in range(n + 3):
            if nested and r.random() < 3.0 / n:
                d.append(op())
            d.append("fin v=%d" % r.randint(0, 60))

    emit(False)
    for _ in range(2):
        for _ in range(r.randint(1, 3)):
            d.append(op())
        emit(True)
    d.append("probe")
    return [d]


def big_programs(seed, n):
    return [("rbig.%d" % i, big_program(seed * 100057 + i)) for i in range(n)]


def many_program(prof, seed):
    """One thing several hundred times, with something else in between."""
    g = Gen(prof, seed)
    r = g.r
    d = g.setup() + ["connect s=%s h=c1 kind=fun key=1 fl=1" % prof.sigs[0]]
    ops = sorted(o for o in prof.ops if prof.ops[o] > 0 and o not in ("probe", "newobj", "reset", "delsig"))
    main = r.choice(ops + ["emit"])
    for i in range(r.randint(257, 300)):
        if main == "emit":
            d.append(g.emit(prof.sigs[0]))
        else:
            while True:
                o = g.op()
                if o.split()[0] == main:
                    break
            if o.startswith("conn"):
                d.append("disc h=" + o.split(" h=")[1].split()[0])
            d.append(o)
        d += [g.fin() for _ in range(r.randint(1, 6))]
        if r.random() < .1:
            d.append(g.op())
    d.append("probe")
    d += [g.emit(s) for s in prof.sigs]
    return [d]


def nest_program(prof, seed):
    """Hundreds of nested emissions, with something done at the bottom and on the way back."""
    g = Gen(prof, seed)
    r = g.r
    s = prof.sigs[0]
    d = ["newsig s=" + x for x in prof.sigs] + ["connect s=%s h=c1 kind=fun key=1 fl=1" % s]
    if r.random() < .6:
        d.append("connect s=%s h=c2 kind=%s key=2 fl=0" % (s, r.choice(["inc", "fu2", "pmf"])))
    n = r.choice([r.randint(60, 70), r.randint(128, 135), r.randint(257, 262)])
    d += [g.emit(s) for _ in range(n)]
    d += [r.choice(["connect s=%s h=c3 kind=fun key=3 fl=0" % s, "disc h=c1", "block h=c1", "disc h=c2", "delsig s=" + s, "unblock h=c1"])
          for _ in range(r.randint(0, 3))]
    for _ in range(2 * n):
        d.append("fin v=%d" % r.randint(0, 60))
        if r.random() < 3 / n:
            d.append(r.choice(["disc h=c1", "disc h=c2", "connect s=%s h=c3 kind=fun key=3 fl=0" % s, "unblock h=c1"]))
    d.append("probe")
    d += [g.emit(x) for x in prof.sigs]
    return [d]


def long_programs(prof, seed, n):
    return [("rlong.%d" % i, (many_program if i % 3 == 1 else nest_program if i % 6 == 2 else lambda p, s: Gen(p, s).program())(prof, seed * 100003 + i)) for i in range(n)]


def write(progs, path):
    with open(path, "w") as f:
        for pid, parts in progs:
            f.write("program %s\n" % pid)
            for p in parts:
                f.write("part\n")
                for d in p:
                    f.write(d + "\n")


# ------------------------------------------------------------------ concurrent programs
class CProfile:
    """Concurrent programs: a set-up, 2-3 short threads, an epilogue that looks at the result.

    Connection variables c1..c4 are set by the set-up and only read by the threads; c5.. belong
    to thread 1.., as do k1.. and b1.. (the library does not promise that one connection
    variable may be assigned by two threads)."""

    def __init__(self, **kw):
        self.ops = {"emit": 3, "connect": 2, "disc": 3, "erase": 1, "block": 1, "unblock": 1}
        self.kinds = {"fun": 4, "inc": 1, "pmf": 1}
        self.keys = 2
        self.threads = (2, 3)
        self.calls = (1, 3)
        self.setup = (1, 4)
        self.nested = 0.25
        self.throw = 0.0
        self.sigs = ["s1"]
        self.modes = ["last"]
        self.preblock = 0.15
        self.own = 0.0
        self.dt = 0.0
        self.cp = 0.0
        self.om = 0.0
        self.third = False       # a third signal belongs to thread 1
        self.__dict__.update(kw)


def cprogram(p, seed):
    r = random.Random(seed)
    val = [0]
    nset = r.randint(*p.setup)
    hs = ["c%d" % (i + 1) for i in range(min(nset, 4))]
    trk = "trk" in p.kinds

    def kind(cmp=False):
        while True:
            k = pick(r, p.kinds)
            if not cmp or k in CMP:
                return k

    def emit(s=None):
        val[0] += 1
        return "emit s=%s a=%d rf=%d m=%s fl=%d" % (s or r.choice(p.sigs), val[0], r.randint(0, 3), r.choice(p.modes), r.randint(0, 5))

    def arm(t, depth, om=True):
        """Copying the callable runs user code, or memory runs out: option and what follows."""
        if depth <= 1 and p.cp and r.random() < p.cp:
            inner = op(t, depth + 1) if r.random() < .7 else []
            return " cp=1", inner + ["throw x=%d" % r.randint(1, 16) if r.random() < p.throw else "fin v=1"]
        return " om=%d" % r.randint(1, 6) if om and p.om and r.random() < p.om else "", []

    def connect(h, s=None):
        k = kind()
        dt = " dt=1" if p.dt and r.random() < p.dt and k in ("fun", "fu2", "inc", "in2") else ""
        return "connect s=%s h=%s kind=%s key=%d o=%d fl=%d%s" % (s or r.choice(p.sigs), h, k, r.randint(1, p.keys), r.randint(1, 2), r.randint(0, 5), dt)

    setup = ["newsig s=%s" % s for s in p.sigs]
    if trk:
        setup += ["newobj o=1", "newobj o=2"]
    for h in hs:
        c = connect(h)
        if p.own and r.random() < p.own and "trk" not in c and "pm" not in c:
            setup.append("sconnect s=%s h=k4 kind=fun key=1 fl=1" % r.choice(p.sigs))
            c += " g=k4"
        setup.append(c)
        if r.random() < p.preblock:
            setup.append("block h=%s" % h)
    parts = [setup]

    def dtor(t, depth):
        """What the destructor of a callable might do."""
        if not p.dt or depth > 1 or r.random() < .5:
            return []
        return op(t, depth + 1) + ["fin v=1"]

    def op(t, depth):
        n = pick(r, p.ops)
        h = r.choice(hs)
        if n == "emit":
            if depth > 1:
                return []
            out = [emit()]
            for _ in range(r.randint(0, nset + 1)):
                if r.random() < p.nested:
                    out += op(t, depth + 1)
                if r.random() < p.throw:
                    out.append("throw x=%d" % r.randint(1, 16))
                else:
                    out.append("fin v=%d" % r.randint(0, 40))
            return out
        if n == "connect":
            a, more = arm(t, depth)
            return [connect("c%d" % (4 + t)) + a] + more
        if n == "sconnect":
            a, more = arm(t, depth)
            return [connect("k%d" % t).replace("connect", "sconnect", 1) + a] + more
        if n in ("disc", "block", "unblock", "connected", "blocked", "valid"):
            return ["%s h=%s" % (n, r.choice(hs + ["c%d" % (4 + t)]) if r.random() < 0.3 else h)] + (dtor(t, depth) if n == "disc" else [])
        if n == "erase":
            a, more = arm(t, depth, False)
            return ["erase s=%s kind=%s key=%d fl=%d%s" % (r.choice(p.sigs), kind(r.random() < 0.8), r.randint(1, p.keys), r.randint(0, 5), a)] + more + dtor(t, depth)
        if n == "scopy":
            return ["scopy h=k%d g=%s fl=%d" % (t, h, r.randint(0, 5))]
        if n == "sdel":
            return ["sdel h=k%d" % t]
        if n == "bnew":
            return ["bnew h=b%d g=%s" % (t, h)]
        if n == "bdel":
            return ["bdel h=b%d" % t]
        if n == "reset":
            return ["reset o=%d" % r.randint(1, 2)]
        if n == "connectx":
            return ["connectx s=%s" % r.choice(p.sigs)]
        sigs = p.sigs + (["s3"] if p.third and t == 1 else [])
        if n == "massign":
            return ["massign d=%s s=%s" % tuple(r.sample(sigs, 2))] + dtor(t, depth)
        if n == "mctor":
            return ["mctor d=s3 s=%s" % r.choice(p.sigs)] if p.third and t == 1 else []
        if n == "delsig":
            return ["delsig s=s3"] + dtor(t, depth) if p.third and t == 1 else []
        raise ValueError(n)

    for t in range(1, r.randint(*p.threads) + 1):
        ops = []
        for _ in range(r.randint(*p.calls)):
            ops += op(t, 0)
        parts.append(ops)
    epi = ["probe"] + [emit(s) for s in p.sigs]
    for h in r.sample(hs, min(2, len(hs))):
        epi.append("disc h=%s" % h)
    epi += [emit(s) for s in p.sigs]
    parts.append(epi)
    return parts


def conc_programs(prof, seed, n, prefix):
    return [("%s%d" % (prefix, i), cprogram(prof, seed * 100019 + i)) for i in range(n)]
