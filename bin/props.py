"""What is explored for each property of the signal library: the bounded models that TLC checks and
enumerates programs from, the profiles of the random programs, and the variants of the harness."""
from gen import Profile, CProfile


# ---------------------------------------------------------------- vocabulary of the models
def connect(s, h, kind="fun", key=1, o=0, g="", dt=False):
    return {"op": "connect", "s": s, "h": h, "c": 0, "g": g, "kind": kind, "key": key, "o": o, "dt": dt}


def sconnect(s, h, kind="fun", key=1, o=0, g="", dt=False):
    return dict(connect(s, h, kind, key, o, g, dt), op="sconnect")


def copying(o):
    """The call runs user code when it copies the callable."""
    return dict(o, cp=True)


def nomem(o, k):
    """The k-th allocation of the call may fail."""
    return dict(o, om=k)


def emit(s="s1", m="last", a=1):
    return {"op": "emit", "s": s, "a": a, "rf": 0, "m": m, "w": False}


def hop(op, h, **kw):
    return dict({"op": op, "h": h}, **kw)


def erase(s, kind, key):
    return {"op": "erase", "s": s, "kind": kind, "key": key}


def sig(op, s, **kw):
    return dict({"op": op, "s": s}, **kw)


def model(setup, ops, calls, depth=2, throws=(0,)):
    """ops, calls: for the main program (a list, a number) or for the threads 1, 2 (lists of them)."""
    if isinstance(calls, int):
        ops, calls = [ops, [], []], [calls, 0, 0]
    else:
        ops, calls = [[]] + list(ops), [0] + list(calls)
        while len(ops) < 3:
            ops.append([])
            calls.append(0)
    return {"setup": setup, "ops": ops, "max": calls, "depth": depth, "throws": list(throws)}


S1, S2 = sig("newsig", "s1"), sig("newsig", "s2")
A, B, C = connect("s1", "c1"), connect("s1", "c2"), connect("s1", "c3", key=2)

# ---------------------------------------------------------------- weights
EMIT = dict(emit=7)
CON = dict(connect=4, disc=4)
BLK = dict(block=1.5, unblock=1.5)
BLKR = dict(bnew=1.5, bmove=1, bdel=1.5)
SCO = dict(sconnect=1.5, scopy=1, smove=1, sdel=1.5)
HND = dict(hcopy=1, hmove=1, hswap=1, hreset=.5)
QRY = dict(connected=.6, blocked=.6, valid=.6, probe=1.2)
SIG = dict(newsig=1.5, delsig=1.2, mctor=1.2, massign=1.2)
OBJ = dict(newobj=1, reset=2)
SLT = {k: 1.0 for k in "slmk slnull slblock slunblock slconn slblkd slbool sldisc slcopy slmove sleq slcall connslot erasesl".split()}


def mix(*ws, **kw):
    r = {}
    for w in ws:
        for k, v in w.items():
            r[k] = r.get(k, 0) + v
    r.update(kw)
    return r


def P(*ws, **kw):
    extra = kw.pop("ops", {})
    return Profile(ops=mix(*ws, **extra), **kw)


def CP(kw_ops, **kw):
    return CProfile(ops=kw_ops, **kw)


def DEEP(**kw):
    """Deeply nested emissions."""
    return P(dict(emit=8, connect=.7, disc=.7, block=.3, unblock=.3), **dict(dict(sigs=["s1", "s2"], fin=.08, prefill=(2, 4), length=(40, 80), kinds=NOTRK), **kw))


def LONG(**kw):
    """Long histories with few connections at a time."""
    return P(dict(emit=6, connect=3, disc=4, erase=1, block=1, unblock=1.2, probe=.5),
             **dict(dict(recycle=True, h=["c1", "c2", "c3", "c4"], fin=.65, prefill=(1, 2), length=(300, 420), kinds=NOTRK), **kw))


NOTRK = {"fun": 4, "fu2": 1, "inc": 2, "in2": 1, "pmf": 1, "pm2": 1}
CMPK = {"fun": 4, "fu2": 2, "pmf": 2, "pm2": 1}
MODES = ["last", "collect", "first", "twice", "odd", "abort", "last", "collect", "none"]


# Everything together.
def ALL():
    return P(EMIT, CON, BLK, BLKR, SCO, HND, QRY, SIG, OBJ, SLT, dict(emit=8, connect=6, disc=3, erase=1.5, connectx=.3), sigs=["s1", "s2", "s3"], prefill=(2, 6),
             own=.1, dt=.1, cp=.06, chase=.1, om=.04, throw=.06, modes=MODES, fin=.5, length=(25, 70), keys=2, k=["k1", "k2", "k3", "k4"], b=["b1", "b2", "b3"])


# Concurrent base mixes
C_BASE = dict(emit=3, connect=2, disc=3, erase=1, block=.7, unblock=.7)
C_ALL = dict(emit=4, connect=2, sconnect=.5, disc=3, erase=1, block=1, unblock=1, connected=1, blocked=1, valid=1, scopy=.5, sdel=.5,
             bnew=.5, bdel=.5, reset=1)

# Moves of signals that other threads use (nobody disconnects a connection whose slot may move).
C_MOVE = dict(emit=4, massign=3, mctor=1, delsig=.7, connect=2, erase=1.5, connected=1, blocked=.5, valid=.7, block=.5, unblock=.5)

PROPS = {}


def prop(pid, variants, seq=(), conc=(), mc=(), live=(), impl=(), nseq=700, nall=250, ngen=250, nconc=0, ncgen=0, nsched=90, nbig=0, nlong=0, long=None):
    if not seq:
        nall = 0
    PROPS[pid] = dict(variants=list(variants), seq=list(seq), conc=list(conc), mc=list(mc), live=list(live), impl=list(impl), nseq=nseq, ngen=ngen,
                      nconc=nconc, ncgen=ncgen, nsched=nsched, nbig=nbig, nall=nall,
                      nlong=nlong, long=long or LONG())


D, B1, U1 = hop("disc", "c1"), hop("block", "c1"), hop("unblock", "c1")

# Models of the algorithm (SignalsImpl): the refinement is checked, and in the thorough tier also that each of the
# faulty variants is told apart.
I_EMIT = ("algorithm-emit", model([S1, A, B], [[emit()], [D, connect("s1", "c3"), erase("s1", "fun", 1)]], (1, 2)),
          ["nodetach", "unlocked", "hold", "noidx", "nomark"])
I_DISC = ("algorithm-disconnect", model([S1, A, B, C], [[D, hop("disc", "c2"), hop("connected", "c1"), erase("s1", "fun", 1)],
                                                      [D, hop("disc", "c3"), connect("s1", "c4"), erase("s1", "fun", 1)]], (2, 2)),
          ["exchange", "idxearly", "noidx", "noid", "nomark"])
I_BLK = ("algorithm-block", model([S1, A, B], [[emit(), D], [B1, U1, hop("disc", "c2")]], (1, 2), throws=(0, 7)), ["nodetach", "hold"])
# One thread disconnects a slot that it is about to run, or that another one runs, while another one uses its flags.
FLAGS = ("both-flags", model([S1, A, B], [[emit(), hop("disc", "c2")], [hop("block", "c2"), hop("unblock", "c2"), hop("connected", "c2")]], (2, 1)))
CROSS = ("cross", model([S1, S2, A, connect("s2", "c2")], [[emit(), hop("disc", "c2")], [emit("s2"), D]], (2, 2)))
I_SEQ = ("algorithm-reentrant", model([S1, A, B, C], [emit(), D, hop("disc", "c2"), erase("s1", "fun", 1), connect("s1", "c4"), B1, U1,
                                                     sig("delsig", "s1"), sig("newsig", "s1")], 3), ["nodetach", "hold", "noidx", "nomark"])

MV12, MV21 = sig("massign", "s2", d="s1"), sig("massign", "s1", d="s2")
I_MOVE = [("algorithm-assign", model([S1, S2, A, connect("s2", "c3", key=2)],
                                     [[MV12, emit(), hop("disc", "c3"), connect("s1", "c2")], [emit("s2"), connect("s2", "c4"), erase("s1", "fun", 1)]], (2, 1)),
           ["onelock", "nomarkold"]),
          ("algorithm-assign-both", model([S1, S2, A, connect("s2", "c3", key=2)],
                                          [[MV12, emit(), erase("s2", "fun", 2)], [MV21, hop("connected", "c1"), hop("connected", "c3")]], (2, 2)),
           ["lockorder"]),
          ("algorithm-construct", model([S1, A, B], [[sig("mctor", "s1", d="s2"), emit("s2"), D, sig("delsig", "s2")], [emit(), connect("s1", "c3"), erase("s1", "fun", 1)]], (3, 1)),
           ["noadopt"])]

prop("C01", [(0, 0), (1, 0), (2, 1)],
     seq=[P(EMIT, CON, BLK, sigs=["s1", "s2"], kinds=NOTRK), P(EMIT, CON, dict(erase=1, block=.5), length=(25, 60), prefill=(3, 8), kinds=NOTRK), DEEP()],
     conc=[CP(C_BASE)],
     mc=[("reentrant", model([S1, S2, A, B, connect("s2", "c4")],
                             [emit(), emit("s2"), D, hop("disc", "c2"), B1, U1, connect("s1", "c3")], 4)),
         ("threads", model([S1, A, B], [[emit(), D], [D, B1, U1, connect("s1", "c3"), emit()]], (2, 2)))],
     nconc=25, ncgen=25,
     nbig=3, nlong=6)

prop("C02", [(0, 0), (0, 1)],
     seq=[P(EMIT, dict(connect=4, disc=5), dict(block=.5, unblock=.5), kinds={"fun": 1}, prefill=(4, 9), h=["c%d" % i for i in range(1, 9)], length=(15, 50)),
          P(EMIT, dict(connect=4, disc=4, erase=1.5, massign=.4, mctor=.4), sigs=["s1", "s2"], kinds=CMPK, keys=4, prefill=(4, 9), h=["c%d" % i for i in range(1, 9)], modes=["last", "collect"])],
     mc=[("order", model([S1, A, B, C, connect("s1", "c4", key=3)],
                         [emit(), D, hop("disc", "c2"), hop("disc", "c3"), hop("disc", "c4"), connect("s1", "c1"), connect("s1", "c2")], 4, depth=1)),
         ("erase", model([S1, A, C, B, connect("s1", "c4", key=3)],
                         [emit(), erase("s1", "fun", 1), hop("disc", "c3"), B1, connect("s1", "c1", key=3)], 4, depth=1))],
     ngen=400,
     nbig=3, nlong=4, long=LONG(ops=dict(massign=.2, mctor=.2), sigs=['s1', 's2']))

prop("C03", [(0, 0), (1, 1)],
     seq=[P(EMIT, dict(connect=5, disc=4, erase=1), fin=.3, prefill=(2, 6), kinds=NOTRK, length=(15, 50)),
          P(dict(emit=9), dict(connect=4, sconnect=1, disc=5, block=.5, unblock=.5, sdel=1), fin=.35, prefill=(3, 7), sigs=["s1", "s2"], modes=["last", "collect"]), DEEP()],
     conc=[CP(dict(emit=4, connect=3, disc=3, erase=.7), nested=.5)],
     impl=[I_EMIT, I_SEQ],
     mc=[("reentrant", model([S1, A, B, C], [emit(), connect("s1", "c4"), D, hop("disc", "c3"), erase("s1", "fun", 1)], 4)),
         ("threads", model([S1, A, B], [[emit()], [connect("s1", "c3"), hop("disc", "c2"), D]], (2, 3)))],
     nconc=25, ncgen=25,
     nbig=2, nlong=4, long=LONG(fin=.5))

prop("C04", [(0, 0), (1, 1)],
     seq=[P(EMIT, dict(connect=3, disc=6, erase=2, sconnect=1, scopy=1, sdel=1.5, hcopy=1.5, hmove=.5, probe=2, delsig=.6, newsig=.6), kinds=NOTRK, prefill=(2, 6)),
          P(EMIT, dict(connect=3, disc=6, erase=3, hcopy=1, probe=2), kinds=CMPK, keys=2, fin=.3, prefill=(3, 6))],
     conc=[CP(dict(disc=5, erase=2, emit=3, scopy=1, sdel=1, connected=1), keys=1, kinds={"fun": 4, "fu2": 1})],
     impl=[I_DISC],
     mc=[("handles", model([S1, A, B, hop("hcopy", "c3", g="c1")],
                           [emit(), D, hop("disc", "c3"), hop("scopy", "k1", g="c1"), hop("sdel", "k1"), erase("s1", "fun", 1), hop("connected", "c3")], 4)),
         ("threads", model([S1, A, B, hop("hcopy", "c3", g="c1")],
                           [[emit(), D, erase("s1", "fun", 1)], [hop("disc", "c3"), erase("s1", "fun", 1), hop("connected", "c1")]], (2, 2))), FLAGS],
     nconc=30, ncgen=30,
     nbig=2, nlong=6, long=LONG(ops=dict(scopy=.5, sdel=.5, hcopy=.5)))

prop("C05", [(0, 0), (2, 0)],
     seq=[P(EMIT, dict(connect=4, disc=6, erase=2, hcopy=1, hreset=.7, probe=1.5), sigs=["s1", "s2"], kinds=CMPK, keys=1, prefill=(3, 8), h=["c%d" % i for i in range(1, 9)]),
          P(EMIT, dict(connect=3, disc=6, erase=1, sconnect=1, sdel=1, delsig=.5, newsig=.7, massign=.4, probe=1), sigs=["s1", "s2"], prefill=(3, 8))],
     conc=[CP(dict(disc=5, connect=2, emit=2, erase=1), setup=(3, 4), keys=1)],
     impl=[I_DISC],
     mc=[("equal", model([S1, A, B, connect("s1", "c3")],
                         [emit(), D, hop("disc", "c2"), hop("disc", "c3"), connect("s1", "c1"), erase("s1", "fun", 1)], 4)),
         ("threads", model([S1, A, B, C], [[D, hop("disc", "c2")], [hop("disc", "c3"), D, connect("s1", "c4"), emit()]], (2, 2)))],
     nconc=25, ncgen=25,
     nbig=3, nlong=4)

prop("C06", [(0, 0), (1, 1)],
     seq=[P(EMIT, dict(connect=6, disc=1, erase=5, probe=1), sigs=["s1", "s2"], keys=2, kinds={"fun": 3, "fu2": 2, "inc": 1, "in2": .5, "pmf": 2, "pm2": 1.5, "trk": 1}, prefill=(3, 6), length=(12, 30)),
          P(EMIT, dict(connect=5, disc=1, erase=4, erasesl=2, slmk=2, connslot=2, slcopy=.5), keys=2, prefill=(2, 5), length=(12, 30))],
     conc=[CP(dict(erase=4, connect=2, disc=1, emit=2), keys=2, kinds={"fun": 3, "fu2": 1, "pmf": 1})],
     impl=[I_EMIT],
     mc=[("kinds", model([S1, A, B, C, connect("s1", "c4", kind="fu2")],
                         [emit(), erase("s1", "fun", 1), erase("s1", "fu2", 1), erase("s1", "fun", 2), erase("s1", "inc", 1),
                          connect("s1", "c1", kind="inc"), connect("s1", "c2")], 3)),
         ("threads", model([S1, A, B, C], [[erase("s1", "fun", 1), emit()], [erase("s1", "fun", 1), D, connect("s1", "c4")]], (2, 2)))],
     nconc=20, ncgen=20,
     nbig=1, nlong=4, long=LONG(ops=dict(erase=2), kinds=CMPK, keys=2))

prop("C07", [(0, 0), (1, 1)],
     seq=[P(EMIT, dict(connect=2, disc=1, block=3, unblock=3, bnew=3, bmove=2, bdel=3, hswap=1, hcopy=1, probe=2), prefill=(2, 5), h=["c1", "c2", "c3", "c4"]),
          P(EMIT, dict(connect=2, disc=1, block=3, unblock=3, bnew=3, bmove=2, bdel=3, hswap=1, delsig=.4, newsig=.6, massign=.3, probe=2), prefill=(2, 5), h=["c1", "c2", "c3"], sigs=["s1", "s2"], throw=.1, b=["b1", "b2", "b3"])],
     conc=[CP(dict(block=3, unblock=3, bnew=2, bdel=2, emit=4, disc=1, blocked=1), preblock=.4)],
     impl=[I_BLK],
     mc=[("flags", model([S1, A, B], [emit(), B1, U1, hop("block", "c2"), D, hop("blocked", "c1")], 4)),
         ("blockers", model([S1, A, B], [emit(), hop("bnew", "b1", g="c1"), hop("bnew", "b1", g="c2"), hop("bnew", "b2", g="c1"), hop("bdel", "b1"),
                                         hop("bmove", "b2", g="b1"), hop("hswap", "b1", g="b2"), D], 3)),
         ("threads", model([S1, A, B], [[emit()], [B1, U1, hop("bnew", "b1", g="c2"), hop("bdel", "b1")]], (2, 3))), FLAGS],
     nconc=20, ncgen=25, ngen=350,
     nlong=6, long=LONG(ops=dict(block=2, unblock=2, bnew=1.5, bdel=1.5, bmove=.5, hswap=.3)))

prop("C08", [(0, 0), (1, 0)],
     seq=[P(EMIT, dict(connect=3, disc=1.5, sconnect=3, scopy=3, smove=3, sdel=3, hswap=2, hmove=1.5, probe=2), prefill=(1, 4), chase=.4),
          P(EMIT, dict(connect=2, disc=1, sconnect=3, scopy=2, smove=3, sdel=3, hswap=1.5, hmove=1, erase=.5, delsig=.4, newsig=.6, probe=2), sigs=["s1", "s2"], k=["k1", "k2", "k3", "k4"], throw=.05, fin=.35)],
     conc=[CP(dict(sconnect=3, scopy=2, sdel=3, emit=3, disc=2))],
     mc=[("owners", model([S1, A, B, hop("scopy", "k1", g="c1")],
                          [emit(), hop("scopy", "k1", g="c2"), hop("scopy", "k2", g="c1"), hop("smove", "k2", g="k1"), hop("sdel", "k1"), hop("sdel", "k2"),
                           hop("hswap", "k1", g="k2"), hop("hmove", "c3", g="k1"), sconnect("s1", "k1")], 3)),
         ("threads", model([S1, A, B, hop("scopy", "k1", g="c1"), hop("scopy", "k2", g="c2")],
                           [[emit(), hop("sdel", "k1")], [hop("sdel", "k2"), D, sconnect("s1", "k2")]], (2, 2)))],
     nconc=20, ncgen=20, ngen=400,
     nlong=6, long=LONG(ops=dict(sconnect=2, scopy=1.5, smove=1, sdel=1.5, hswap=.5)))

prop("C09", [(0, 0), (1, 0)],
     seq=[P(EMIT, CON, BLK, HND, HND, QRY, dict(probe=2, scopy=1, smove=1, sdel=.5), prefill=(1, 4), chase=.3),
          P(EMIT, CON, BLK, HND, HND, dict(probe=3, newsig=1, delsig=1, massign=.5, mctor=.5, erase=1, connslot=.5, slmk=.5, newobj=.5, reset=.8), sigs=["s1", "s2"], prefill=(1, 4))],
     conc=[CP(dict(connected=3, blocked=2, valid=2, disc=2, block=1, unblock=1, emit=2, erase=.7))],
     mc=[("handles", model([S1, A, B], [emit(), hop("hcopy", "c3", g="c1"), hop("hmove", "c3", g="c2"), hop("hswap", "c1", g="c3"), hop("hreset", "c1"),
                                        D, hop("disc", "c3"), hop("block", "c3"), hop("valid", "c3"), sig("delsig", "s1")], 3)),
         ("threads", model([S1, A, B, hop("hcopy", "c3", g="c1")], [[hop("connected", "c1"), hop("valid", "c1"), hop("blocked", "c1")],
                                                                   [hop("disc", "c3"), hop("block", "c3"), emit()]], (2, 2)))],
     nconc=20, ncgen=25, ngen=400,
     nlong=6, long=LONG(ops=dict(hcopy=1, hmove=1, hswap=1, hreset=.3, probe=2)))

TRK = {"trk": 5, "fun": 1}
prop("C10", [(0, 0), (1, 1)],
     seq=[P(EMIT, dict(connect=4, disc=1, newobj=2, reset=3, probe=2, block=.5, unblock=.5), kinds=TRK, objs=[1, 2, 3, 4], prefill=(2, 5)),
          P(EMIT, dict(connect=3, sconnect=1, disc=1, newobj=2, reset=3, probe=2, slmk=2, slcopy=1, slmove=.5, slcall=2, slconn=1, connslot=2, delsig=.3, newsig=.5), kinds=TRK, objs=[1, 2, 3, 4, 5], prefill=(2, 5), throw=.1)],
     conc=[CP(dict(emit=4, reset=3, disc=1, connected=1), kinds={"trk": 4, "fun": 1}, nested=.4)],
     mc=[("tracked", model([S1, {"op": "newobj", "o": 1}, connect("s1", "c1", "trk", 0, 1), B, connect("s1", "c3", "trk", 0, 1)],
                           [emit(), {"op": "reset", "o": 1}, D, hop("connected", "c3"), connect("s1", "c4", "trk", 0, 1)], 4)),
         ("threads", model([S1, {"op": "newobj", "o": 1}, connect("s1", "c1", "trk", 0, 1), connect("s1", "c2", "trk", 0, 1)],
                           [[emit(), hop("connected", "c1")], [{"op": "reset", "o": 1}, emit(), D]], (2, 2)))],
     nconc=35, ncgen=25,
     nlong=6, long=LONG(ops=dict(newobj=.3, reset=.2), kinds=dict(trk=5, fun=1), objs=[1, 2, 3, 4, 5]))

prop("C11", [(0, 1), (2, 1), (0, 0), (1, 1)],
     seq=[P(dict(emit=10), dict(connect=3, disc=2, block=1.5, unblock=1, reset=.3), prefill=(1, 6), modes=MODES, throw=.05),
          P(dict(emit=10), dict(connect=3, disc=2, block=1.5, unblock=1, slcall=2, slmk=1, slblock=.5, connslot=.7), prefill=(0, 3), modes=MODES)],
     mc=[("combiners", model([S1, A, B], [emit(), emit(m="collect"), emit(m="first"), emit(m="twice"), B1, hop("disc", "c2")], 3)),
         ("walks", model([S1, A, B, C], [emit(m="odd"), emit(m="abort"), emit(m="none"), emit(m="collect"), D, hop("block", "c2"), connect("s1", "c4")], 3))],
     nseq=350, ngen=250,
     nlong=6, long=LONG(modes=MODES))

prop("C12", [(0, 0), (2, 1), (1, 0)],
     seq=[P(dict(emit=9), dict(connect=4, disc=1.5), prefill=(2, 7), modes=MODES, fin=.4),
          P(dict(emit=9), dict(connect=3, disc=1, slmk=1.5, slcall=2.5, connslot=1), sigs=["s1", "s2"], prefill=(1, 5), modes=["last", "twice"], throw=.08), DEEP(sigs=["s1"])],
     conc=[CP(dict(emit=5, disc=.7, connect=.7), setup=(2, 4), kinds={"fun": 2, "fu2": 1, "in2": 2, "pmf": 1, "pm2": 1, "trk": 1}, nested=.4)],
     mc=[("nested", model([S1, S2, A, connect("s2", "c2")], [emit(), emit("s2", a=2), emit(a=3)], 4, depth=3))],
     nconc=25,
     nlong=5)

prop("C13", [(0, 0), (1, 1)],
     seq=[P(EMIT, CON, BLK, SCO, dict(erase=2, delsig=.4, newsig=.6, connslot=.5, slmk=.5), sigs=["s1", "s2"], own=.4, dt=.3, cp=.15, fin=.25, prefill=(2, 5), k=["k1", "k2", "k3", "k4"]),
          P(EMIT, CON, SCO, dict(erase=3, delsig=.7, newsig=1, massign=.5, reset=.7, newobj=.5), sigs=["s1", "s2", "s3"], own=.3, dt=.4, fin=.3, prefill=(1, 4), throw=.08), DEEP(own=.2, dt=.2),
          P(EMIT, CON, SCO, dict(erase=3, delsig=.7, newsig=1, slmk=1, slcopy=1.5, connslot=1.5, block=.7), sigs=["s1", "s2"], cp=.6, fin=.4, prefill=(1, 4), throw=.08)],
     conc=[CP(dict(emit=4, connect=2, disc=3, erase=2, sconnect=1, sdel=1, scopy=.5, block=.5), sigs=["s1", "s2"], nested=.6, own=.3), CP(dict(emit=4, connect=2, disc=4, erase=2.5, sconnect=1, sdel=1, scopy=.5, block=.5), sigs=["s1", "s2"], nested=.5, own=.1, dt=.5),
           CP(dict(emit=3, connect=4, disc=3, erase=2.5, sconnect=1, sdel=.5), sigs=["s1", "s2"], nested=.4, cp=.5),
           CP(dict(massign=4, emit=2, connect=1.5, erase=1), sigs=["s1", "s2"], nested=.5, dt=.3)],
     impl=[I_EMIT, I_MOVE[1]],
     mc=[("reentrant", model([S1, S2, A, sconnect("s2", "k1"), connect("s1", "c2", g="k1")],
                             [emit(), emit("s2"), D, hop("disc", "c2"), erase("s1", "fun", 1), erase("s2", "fun", 1)], 3)),
         ("destructors", model([S1, connect("s1", "c1", dt=True), connect("s1", "c2", dt=True)],
                               [emit(), D, hop("disc", "c2"), erase("s1", "fun", 1), connect("s1", "c3"), hop("connected", "c2"), sig("delsig", "s1")], 4)),
         ("copies", model([S1, A, {"op": "slmk", "v": 1, "kind": "fun", "key": 1, "o": 0, "c": 0}],
                          [emit(), D, copying(B), copying(erase("s1", "fun", 1)), copying({"op": "connslot", "s": "s1", "v": 1, "h": "c3", "c": 0}),
                           copying(sconnect("s1", "k1")), hop("sdel", "k1"), sig("delsig", "s1")], 3)),
         ("threads", model([S1, S2, A, sconnect("s2", "k1"), connect("s1", "c2", g="k1")],
                           [[emit(), hop("disc", "c2")], [emit("s2"), erase("s1", "fun", 1), connect("s2", "c3")]], (2, 2))), CROSS],
     live=[("threads-live", model([S1, A, B], [[emit(), D], [hop("disc", "c2"), erase("s1", "fun", 1), connect("s1", "c3")]], (2, 1)))],
     nconc=65, ncgen=30,
     nlong=5, long=LONG(own=.2, dt=.3, ops=dict(sconnect=1, sdel=.5)))

prop("C14", [(0, 0), (2, 1), (1, 0)],
     seq=[P(EMIT, CON, BLK, dict(connectx=1, erase=.7, probe=1), throw=.4, prefill=(2, 6), fin=.5),
          DEEP(throw=.4, fin=.2), P(EMIT, CON, SCO, dict(erase=1.5, probe=1, slmk=1, slcopy=1, connslot=1), throw=.4, cp=.35, om=.3, prefill=(1, 5), fin=.5),
          P(dict(emit=9, probe=.5), throw=.9, fin=.9, prefill=(2, 4), length=(60, 110), kinds=NOTRK),
          P(EMIT, CON, SCO, dict(connectx=1.5, bnew=1, bdel=1, newobj=.3, reset=.5, probe=1.5, slmk=1, slcall=1.5), throw=.35, sigs=["s1", "s2"], prefill=(2, 6), modes=MODES, own=.1)],
     conc=[CP(dict(emit=5, disc=1.5, connect=1, block=.5, connectx=.7), throw=.4, nested=.3),
           CP(dict(emit=2, disc=2, connect=4, sconnect=.5, erase=1), throw=.4, nested=.3, cp=.3, om=.3)],
     mc=[("throws", model([S1, A, B, C], [emit(), D, hop("block", "c2"), connect("s1", "c4"), {"op": "connectx", "s": "s1", "kind": "fun"}], 3, throws=(0, 1))),
         ("copies", model([S1, A, {"op": "slmk", "v": 1, "kind": "fun", "key": 1, "o": 0, "c": 0}],
                          [emit(), copying(B), copying(erase("s1", "fun", 1)), copying({"op": "connslot", "s": "s1", "v": 1, "h": "c3", "c": 0}),
                           copying({"op": "slcopy", "v": 2, "v2": 1, "c": 0}), copying(sconnect("s1", "k1"))], 3, throws=(0, 1))),
         ("memory", model([S1, A, {"op": "slmk", "v": 1, "kind": "fun", "key": 1, "o": 0, "c": 0}],
                          [emit()] + [nomem(connect("s1", "c2"), k) for k in (1, 2, 3, 4)] + [nomem({"op": "connslot", "s": "s1", "v": 1, "h": "c3", "c": 0}, k) for k in (1, 2, 3)], 3)),
         ("threads", model([S1, A, B], [[emit()], [emit(), D, connect("s1", "c3")]], (1, 2), throws=(0, 1)))],
     nconc=20, ncgen=20,
     nlong=8, long=LONG(throw=.3, modes=MODES))

prop("C15", [(0, 0), (1, 1)],
     seq=[P(EMIT, dict(connect=4, disc=1.5, delsig=3, newsig=3, probe=2, hcopy=.5, block=.7, sconnect=1, sdel=.7, bnew=.7, bdel=.7), sigs=["s1", "s2"], prefill=(2, 6), fin=.35),
          P(EMIT, dict(connect=4, disc=1.5, delsig=3, newsig=3, probe=2, erase=.5, mctor=.5, massign=.5, sconnect=1, reset=.4), sigs=["s1", "s2", "s3"], prefill=(2, 6), fin=.3, own=.2, dt=.2, throw=.08, modes=MODES)],
     impl=[I_SEQ],
     mc=[("ends", model([S1, S2, A, B, connect("s2", "c3")], [emit(), emit("s2"), sig("delsig", "s1"), sig("delsig", "s2"), D, hop("connected", "c2"), sig("newsig", "s1"), connect("s1", "c4")], 4)),
         ("destructors", model([S1, connect("s1", "c1", dt=True), connect("s1", "c2", dt=True)],
                               [emit(), sig("delsig", "s1"), D, hop("disc", "c2"), hop("connected", "c2"), sig("newsig", "s1"), connect("s1", "c3")], 4))],
     ngen=400,
     nlong=6, long=LONG(ops=dict(delsig=1, newsig=2), sigs=['s1', 's2']))

prop("C16", [(0, 0), (1, 1)],
     seq=[P(EMIT, CON, dict(mctor=3.5, massign=3, newsig=1, delsig=2.5, probe=2.5, block=2, unblock=.7, erase=.7), sigs=["s1", "s2", "s3"], prefill=(2, 6), kinds=NOTRK),
          P(EMIT, CON, SCO, dict(mctor=2.5, massign=3, newsig=2, delsig=1, probe=1.5, bnew=.5, bdel=.5, hcopy=.5, newobj=.4, reset=.5), sigs=["s1", "s2", "s3"], prefill=(2, 6), throw=.05, fin=.35, dt=.2)],
     conc=[CP(C_MOVE, sigs=["s1", "s2"], third=True, nested=.3), CP(C_MOVE, sigs=["s1", "s2"], third=True, dt=.3, throw=.05)],
     impl=I_MOVE,
     mc=[("moves", model([S1, S2, A, B, connect("s2", "c3")],
                         [emit(), emit("s2"), sig("massign", "s1", d="s2"), sig("massign", "s2", d="s1"), sig("massign", "s1", d="s1"), D, sig("delsig", "s1"), connect("s1", "c4")], 3)),
         ("threads", model([S1, S2, A, connect("s2", "c3")],
                           [[emit(), sig("massign", "s2", d="s1"), connect("s1", "c2"), erase("s2", "fun", 1)],
                            [sig("massign", "s1", d="s2"), emit("s2"), hop("connected", "c1"), hop("connected", "c3")]], (2, 2))),
         ("ctor", model([S1, A, B], [emit(), emit("s2"), sig("mctor", "s1", d="s2"), B1, D, sig("delsig", "s1"), hop("disc", "c2"), connect("s1", "c4"), connect("s2", "c4")], 4))],
     ngen=450, nconc=40, ncgen=25,
     nlong=6, long=LONG(ops=dict(mctor=1, massign=1, newsig=1, delsig=.5), sigs=['s1', 's2', 's3']))

prop("C17", [(0, 0), (1, 1)],
     seq=[P(EMIT, CON, dict(erase=1.5, sconnect=1, sdel=1, delsig=.5, newsig=.7, massign=.4), own=.2, dt=.4, prefill=(2, 6), fin=.3, sigs=["s1", "s2"], k=["k1", "k2", "k3", "k4"]),
          P(EMIT, CON, dict(erase=1.5, sconnect=1, sdel=1, slmk=1, slcopy=1, slmove=.7, slnull=.7, connslot=1, connectx=.5, newobj=.5, reset=.7, slcall=.7), own=.1, dt=.3, prefill=(2, 6), fin=.35, throw=.1, modes=MODES)],
     conc=[CP(dict(emit=4, disc=3, erase=1.5, connect=2, sconnect=.7, sdel=.7), own=.25, dt=.2, nested=.4)],
     mc=[("self", model([S1, S2, A, sconnect("s2", "k1"), connect("s1", "c2", g="k1", dt=True), B],
                        [emit(), emit("s2"), D, hop("disc", "c2"), erase("s1", "fun", 1), sig("delsig", "s1")], 3)),
         ("threads", model([S1, A, B], [[emit()], [D, hop("disc", "c2"), erase("s1", "fun", 1)]], (2, 2)))],
     nconc=25, ncgen=20,
     nbig=1, nlong=6, long=LONG(own=.2, dt=.3, ops=dict(sconnect=1, sdel=.5)))

prop("C18", [(0, 0), (1, 1)],
     seq=[], nseq=0, ngen=0,
     conc=[CP(C_ALL, kinds={"fun": 4, "fu2": 1, "inc": 1, "pmf": 1, "trk": 1}, throw=.03),
           CP(dict(emit=3, connect=3, disc=4, erase=2), setup=(2, 4), keys=1),
           CP(dict(connect=4, disc=3, emit=2), setup=(0, 2) if False else (1, 2), threads=(3, 3), calls=(1, 2))],
     impl=[I_DISC, I_EMIT],
     mc=[FLAGS, CROSS, ("connect", model([S1, A], [[connect("s1", "c2"), D, emit()], [connect("s1", "c3"), D, emit(), B1]], (2, 2))),
         ("erase", model([S1, A, B, C], [[erase("s1", "fun", 1), D, emit()], [hop("disc", "c2"), erase("s1", "fun", 1), connect("s1", "c4"), hop("connected", "c1")]], (2, 2)))],
     nconc=130, ncgen=80, nsched=120)

prop("C19", [(0, 0), (1, 0), (2, 1)],
     seq=[P(SLT, SLT, dict(emit=4, connect=1, disc=2, block=1, unblock=.7, probe=1, erase=.5), prefill=(0, 2), length=(20, 50)),
          P(SLT, SLT, dict(emit=4, disc=2, block=1, newobj=1, reset=2, probe=1), prefill=(0, 1), length=(20, 50), kinds={"fun": 2, "fu2": 1, "inc": 1, "in2": 1, "pmf": 1, "pm2": 1, "trk": 2}, throw=.1, keys=2)],
     mc=[("slots", model([S1, {"op": "slmk", "v": 1, "kind": "fun", "key": 1, "o": 0, "c": 0}],
                         [emit(), {"op": "slcopy", "v": 2, "v2": 1, "c": 0}, {"op": "slmove", "v": 2, "v2": 1}, {"op": "slblock", "v": 1}, {"op": "slunblock", "v": 2},
                          {"op": "sleq", "v": 1, "v2": 2}, {"op": "connslot", "s": "s1", "v": 1, "h": "c1", "c": 0}, {"op": "connslot", "s": "s1", "v": 2, "h": "c2", "c": 0},
                          {"op": "slcall", "v": 2, "a": 1, "rf": 0, "m": "last", "w": False}, {"op": "slnull", "v": 1}, B1, D,
                          {"op": "slmk", "v": 2, "kind": "inc", "key": 1, "o": 0, "c": 0}], 3))],
     ngen=500,
     nlong=5, long=LONG(ops=SLT))
