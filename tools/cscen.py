"""Scenarios for the controlled scheduler (see harness/conc.c)."""

BASE = dict(flags=["-"] * 5 + ["d", "d", "f", "f"], n=(6, 24), mm=(1, 6), app=0.2, nproc=(2, 4), ops=(2, 5),
            roles=dict(bw=3, nw=2, br=3, nr=3, bufw=1, stat=1, app=0.5, re=0), pre=0.5, pool=0.0, crash=0, modes="rrp",
            reopen=0.15, batch=0.4, obs=0.4, keepinit=0.0, pollfd=0.0, reset=0.3, bign=0.12, extra=0.2)
PROFILES = {
    "C01": dict(flags=["-"], reopen=0.25),
    "C02": dict(flags=["-", "-", "-", "d", "f"], mm=(1, 4), n=(4, 14), roles=dict(bw=3, nw=5, br=2, nr=2, bufw=1)),
    "C03": dict(flags=["d", "d", "d", "f"], roles=dict(bw=4, nw=4, br=2, nr=2, bufw=1, stat=2), mm=(1, 4), n=(4, 14)),
    "C04": dict(flags=["f"], roles=dict(bw=4, nw=2, br=3, nr=5, bufw=1), mm=(1, 4), n=(4, 14), reopen=0.35, pre=0.8),
    "C05": dict(batch=0.95, roles=dict(bw=4, nw=3, br=4, nr=2, bufw=1)),
    "C06": dict(roles=dict(bw=3, nw=3, br=3, nr=3, bufw=2, stat=5), reset=0.5),
    "C07": dict(roles=dict(bufw=6, br=3, nr=3, pv=1.5), pollfd=0.5, flags=["-", "-", "-", "-", "d", "f"]),
    "C08": dict(roles=dict(nr=6, bw=3, nw=3, br=1), obs=0.8, reopen=0.25),
    "C09": dict(roles=dict(bw=5, br=5, bufw=2), flags=["-"], mm=(1, 3), n=(4, 12), nproc=(2, 5), reopen=0.3, pre=0.4),
    "C10": dict(pollfd=0.2, roles=dict(bw=3, nw=2, br=3, nr=3, bufw=1, stat=1, app=0.5, pv=0.4)),
    "C11": dict(crash=1, nproc=(3, 4), roles=dict(bw=4, br=4, nr=2, nw=2, bufw=1), flags=["-"] * 4 + ["d", "f"], n=(4, 16), mm=(1, 4)),
    "C12": dict(roles=dict(re=3, bw=2, nw=2, nr=3, br=1, stat=1), reopen=0.4, keepinit=0.5),
    "C13": dict(roles=dict(app=5, nw=2, nr=2), app=1.0),
    "C14": dict(pollfd=0.9, roles=dict(bw=4, br=5, pv=3, bufw=1), flags=["-"], mm=(1, 3), n=(4, 10)),
    "C15": dict(roles=dict(bw=3, br=3, nr=2, churn=3), reopen=0.6, flags=["-"], mm=(1, 4), n=(4, 16)),
    "C16": dict(roles=dict(re=4, bw=1, nw=1, nr=2, br=1), reopen=0.7, keepinit=0.2, ops=(1, 4)),
}


def pick(r, d):
    k = [x for x in d if d[x] > 0]
    return r.choices(k, [d[x] for x in k])[0]


def length(r, n):
    return r.choice((1, 2, 3, n // 2, max(1, n // 2 + 1), n - 1, n, r.randint(1, n), r.randint(1, n)))or 1


def wop(r, P, h, n, mm):
    if r.random() < P["batch"] and mm > 1:
        k = r.randint(1, min(mm, 3))
        ls = [max(1, length(r, max(1, n // k))) for _ in range(k)]
        if r.random() < 0.05:
            ls.append(n + 1)
        return "wv %d %s" % (h, " ".join(map(str, ls)))
    return "w %d %d" % (h, length(r, n) if r.random() < 0.96 else n + 1)


def rop(r, P, h, n):
    if r.random() < 0.5:
        return "r %d %d" % (h, r.choice((n, n, max(1, n // 2))))
    return "rv %d %d %d" % (h, r.choice((n, n, 2 * n)), r.choice((1, 2, 5, 10)))


def process(r, P, k, n, mm, app, farm):
    """One process of a role; its handles are numbered from 10*k."""
    role = pick(r, P["roles"])
    h = 10 * k
    ops = []
    cnt = r.randint(*P["ops"])
    pfk = r.random() < P["pollfd"]

    def opener(h):
        fl = {"bw": "w", "nw": "wn", "br": "r", "nr": "rn", "stat": "rn", "app": "wn", "re": None, "pv": None,
              "churn": r.choice(("r", "w", "rn", "w"))}.get(role, "")
        if role == "bufw":
            fl = r.choice(("wb", "wb", "wnb"))
        return fl
    fl = opener(h)
    if fl is None:
        for _ in range(cnt):
            if role == "pv":
                ops.append("pv %d %d" % (r.randint(0, 1), r.choice((1, 1, 0))))
            else:
                ops.append(init(r, P, k, 0)[0])
                if r.random() < 0.4:
                    ops += ["open %d 0 %s" % (h, r.choice(("wn", "rn"))), "st %d -" % h, "cl %d" % h]
                    h += 1
        return ops
    # other handles of the same process
    if r.random() < P["extra"]:
        for j in range(r.randint(1, 4)):
            ops.append("open %d 0 %s" % (200 + 10 * k + j, r.choice((fl, fl, "r", "rn", "w", "wn"))))
    ops.append("open %d 0 %s" % (h, fl))
    if pfk and "n" not in fl:
        ops.append("pf %d %d" % (h, r.randint(0, 1)))
    for _ in range(cnt):
        if r.random() < P["reopen"]:
            ops.append("cl %d" % h)
            h += 1
            fl = opener(h)
            ops.append("open %d 0 %s" % (h, fl))
            if pfk and "n" not in fl and r.random() < 0.7:
                ops.append("pf %d %d" % (h, r.randint(0, 1)))
        x = r.random()
        if role == "stat":
            ops.append("st %d %s" % (h, r.randint(1, 99) if r.random() < P["reset"] else "-"))
        elif role == "app":
            ops.append(r.choice(("as %d %d" % (h, app), "ab %d %d" % (h, app), "ag %d m" % h, "ag %d %d" % (h, app))))
        elif "w" in fl:
            if "b" in fl and x < 0.35:
                ops.append("fl %d %d" % (h, r.randint(0, 1)))
            elif x > 0.93:
                ops.append("st %d -" % h)
            else:
                ops.append(wop(r, P, h, n, mm))
        else:
            if "n" in fl and x < P["obs"]:
                ops.append(r.choice(("obs %d", "obs %d", "pollsel %d")) % h)
            elif farm and x > 0.9:
                ops.append("fs %d %d" % (h, r.randint(0, 1)))
            elif x > 0.95:
                ops.append("st %d -" % h)
            else:
                ops.append(rop(r, P, h, n))
    if r.random() < 0.3:
        ops.append("cl %d" % h)
    elif r.random() < 0.1:
        ops.append("exit")
    return ops


def init(r, P, k, f=0):
    fl = r.choice(P["flags"])
    n, mm = r.randint(*P["n"]), r.randint(*P["mm"])
    if r.random() < P["bign"]:      # messages spanning pages
        n = n * r.choice((300, 1000, 1700, 4096)) + r.randint(0, 7)
    app = r.randint(1, 40) if r.random() < P["app"] else -1
    if r.random() < P["keepinit"]:
        fl += "k"
    return "init %d %d %d %s %d" % (f, n, mm, fl, app), n, mm, app, "f" in fl


def scenario(r, name, runs=40, **over):
    P = dict(BASE, **PROFILES[name])
    P.update(over)
    names = ["N"] if r.random() < 0.35 else []
    line, n, mm, app, farm = init(r, dict(P, keepinit=0), 0)
    out = names + ["W 0", line]
    if r.random() < 0.6:
        out.append("open 1 0 %s" % r.choice(("rn", "wn", "r", "w")))
        if r.random() < P["pre"]:
            out += ["open 2 0 wn"] + [wop(r, P, 2, n, mm) for _ in range(r.randint(1, mm))] + ["cl 2"] * r.randint(0, 1)
    k = 1
    for _ in range(r.randint(*P["nproc"])):
        out += ["W 1"] + process(r, P, k, n, mm, max(app, 1), farm)
        k += 1
    # afterwards: others come and go; whoever is still blocked can proceed or really cannot
    ph = 2
    for _ in range(r.randint(1, 3)):
        h = 10 * k
        out.append("W %d" % ph)
        x = r.random()
        if P["pollfd"] and x < 0.3:
            out += ["pv 0 1", "pv 1 1"]
        elif x < 0.5:
            out += ["open %d 0 rn" % h, "obs %d" % h, "rv %d %d %d" % (h, 4 * n, r.choice((1, 2, 20))), "obs %d" % h, "st %d -" % h]
        elif x < 0.8:
            out += ["open %d 0 wn" % h, wop(r, P, h, n, mm), "st %d -" % h]
        else:
            out += ["open %d 0 wn" % h, "open %d 0 rn" % (h + 1), "rv %d %d 20" % (h + 1, 4 * n), wop(r, P, h, n, mm), "rv %d %d 20" % (h + 1, 4 * n), "st %d -" % h]
        if r.random() < 0.5:
            out.append("cl %d" % h)
        k += 1
        ph += 1
        if P["crash"] and r.random() < 0.15:
            out.append("K")
    return out


def random_scenarios(seed, name, count, runs):
    import random
    sc = []
    for i in range(count):
        r = random.Random("%s/%s/%d" % (name, seed, i))
        P = dict(BASE, **PROFILES[name])
        ls = scenario(r, name)
        crash = P["crash"]
        sc.append(("%s-%d" % (name, i), "%s %d %d %d %d" % (r.choice(P["modes"]), r.randint(1, 10 ** 6), runs, 0 if crash else r.choice((0, 0, 2)), crash), ls))
    return sc


def small(seed, name, count, runs):
    """Small random programs of two or three processes, schedules enumerated."""
    import random
    sc = []
    for i in range(count):
        r = random.Random("small/%s/%s/%d" % (name, seed, i))
        three = r.random() < .25
        ls = scenario(r, name, nproc=(3, 3) if three else (2, 2), ops=(1, 1) if three else (1, 3), n=(3, 6), mm=(1, 3), crash=0)
        sc.append(("%s-s%d" % (name, i), "d 1 %d %d 0" % (runs, 1 if three else r.choice((1, 1, 2))), ls))
    return sc


def batches(seed, count, runs):
    """Batches of very many messages, written and read while others do the same."""
    import random
    sc = []
    for i in range(count):
        r = random.Random("batches/%s/%d" % (seed, i))
        fl = r.choice("---df")
        k = r.choice((300, 1100, 1500, 2100))
        mm, n = r.choice((2 * k, 3 * k, 5 * k)), 12 * k
        if r.random() < .4:     # almost full already
            pre = ("open 1 0 wn", "wv 1 " + " ".join(["1"] * (mm - k)), "cl 1")
        else:
            pre = ()
        out = ["W 0", "init 0 %d %d %s -1" % (n, mm, fl)] + list(pre)
        for p in range(1, r.choice((3, 4))):
            w = "w" if fl != "-" and r.random() < .5 else "wn"
            out += ["W 1", "open %d 0 %s" % (10 * p, w)]
            for _ in range(r.randint(1, 2)):
                out.append("wv %d %s" % (10 * p, " ".join(str(r.randint(1, 3)) for _ in range(k - r.randint(0, 9)))))
            if r.random() < .3:
                out.append("st %d -" % (10 * p))
        for p in range(5, r.choice((6, 6, 7))):
            out += ["W 1", "open %d 0 rn" % (10 * p)]
            for _ in range(r.randint(1, 3)):
                out.append("rv %d %d %d" % (10 * p, n, r.choice((k, 2 * k, 5 * k))))
        out += ["W 2", "open 90 0 rn", "rv 90 %d %d" % (n, mm), "st 90 -"]
        sc.append(("batches-%d" % i, "%s %d %d 0 0" % (r.choice("rp"), r.randint(1, 10 ** 6), runs), out))
    return sc


# ---- directed scenarios: explored systematically --------------------------
def _w(*procs):
    """procs: (phase, ops...)"""
    out = []
    for p in procs:
        if p == "K" or p == "N":
            out.append(p)
        else:
            out.append("W %d" % p[0])
            out += list(p[1:])
    return out


DRAIN = "open 90 0 rn", "rv 90 1000 20", "st 90 -"
FILL = "open 91 0 wn", "w 91 2", "w 91 2", "st 91 -"

WAKE = [
    # a reader about to wait, a writer
    _w((0, "init 0 10 3 - -1"), (1, "open 10 0 r", "r 10 10"), (1, "open 20 0 w", "w 20 4"), (2,) + DRAIN),
    # both opened before
    _w((0, "init 0 10 3 - -1"), (1, "open 10 0 r", "r 10 10", "r 10 10"), (1, "open 20 0 w", "w 20 4", "w 20 3"), (2,) + FILL, (3,) + DRAIN),
    # a writer about to wait, a reader
    _w((0, "init 0 4 2 - -1", "open 1 0 wn", "w 1 4", "cl 1"), (1, "open 10 0 w", "w 10 3"), (1, "open 20 0 r", "r 20 10"), (2,) + DRAIN),
    _w((0, "init 0 4 2 - -1", "open 1 0 wn", "w 1 2", "w 1 2", "cl 1"), (1, "open 10 0 w", "wv 10 1 1"), (1, "open 20 0 r", "r 20 10", "r 20 10"), (2,) + DRAIN),
    # slots reused while the waker is connected
    _w("N", (0, "init 0 10 3 - -1"), (1, "open 10 0 r", "cl 10", "open 11 0 r", "r 11 10"), (1, "open 20 0 w", "w 20 4"), (2,) + FILL, (3,) + DRAIN),
    _w("N", (0, "init 0 4 1 - -1", "open 1 0 wn", "w 1 4", "cl 1"), (1, "open 10 0 w", "cl 10", "open 11 0 w", "w 11 2"), (1, "open 20 0 r", "r 20 4"), (2,) + DRAIN),
    # two readers for one message each
    _w((0, "init 0 10 3 - -1"), (1, "open 10 0 r", "r 10 10"), (1, "open 20 0 r", "r 20 10"), (1, "open 30 0 w", "wv 30 2 2"), (2,) + FILL),
    # two writers, space for both
    _w((0, "init 0 4 2 - -1", "open 1 0 wn", "wv 1 2 2", "cl 1"), (1, "open 10 0 w", "w 10 2"), (1, "open 20 0 w", "w 20 2"), (1, "open 30 0 r", "rv 30 10 2"), (2,) + DRAIN),
    # a waiting flush on a non-blocking handle
    _w((0, "init 0 4 2 - -1", "open 1 0 wn", "w 1 4", "cl 1"), (1, "open 10 0 wnb", "w 10 3", "fl 10 1", "w 10 2"), (1, "open 20 0 r", "r 20 10"), (2,) + DRAIN),
    _w((0, "init 0 4 2 - -1", "open 1 0 wn", "w 1 4", "cl 1"), (1, "open 10 0 wb", "w 10 3", "cl 10"), (1, "open 20 0 r", "r 20 10", "cl 20"), (2,) + DRAIN),
    # farm
    _w((0, "init 0 6 2 f -1"), (1, "open 10 0 r", "r 10 10"), (1, "open 20 0 r", "r 20 10", "r 20 10"), (1, "open 30 0 w", "w 30 4", "w 30 4"), (2,) + FILL),
]
READY = [
    _w((0, "init 0 10 3 - -1"), (1, "open 10 0 rn", "pollsel 10", "r 10 10", "obs 10"), (1, "open 20 0 w", "w 20 4"), (2,) + DRAIN),
    _w((0, "init 0 10 3 - -1"), (1, "open 10 0 rn", "r 10 10", "obs 10", "pollsel 10"), (1, "open 20 0 wn", "wv 20 2 2", "w 20 1"), (2,) + DRAIN),
    _w((0, "init 0 10 3 - -1", "open 1 0 rn", "open 2 0 wn", "w 2 3"), (1, "open 10 0 rn", "obs 10", "r 10 10", "obs 10"), (1, "open 20 0 rn", "r 20 10", "obs 20"), (1, "open 30 0 wn", "w 30 2")),
    _w("N", (0, "init 0 10 3 - -1", "open 1 0 rn"), (1, "open 10 0 rn", "cl 10", "open 11 0 rn", "obs 11"), (1, "open 20 0 wn", "w 20 2", "w 20 2")),
    _w((0, "init 0 6 2 f -1", "open 1 0 rn"), (1, "open 10 0 rn", "r 10 10", "obs 10"), (1, "open 20 0 wn", "w 20 4", "w 20 4"), (2, "open 30 0 rn", "obs 30", "rv 30 10 5", "obs 30")),
    _w((0, "init 0 4 2 d -1", "open 1 0 rn", "open 2 0 wn", "w 2 3"), (1, "open 10 0 rn", "r 10 10", "obs 10"), (1, "open 20 0 wn", "w 20 4")),
]
ORDER = [
    _w((0, "init 0 10 4 - -1"), (1, "open 10 0 wn", "wv 10 2 3"), (1, "open 20 0 wn", "wv 20 3 1"), (1, "open 30 0 rn", "rv 30 20 10", "rv 30 20 10"), (2,) + DRAIN),
    _w((0, "init 0 8 4 d -1"), (1, "open 10 0 wn", "wv 10 2 3"), (1, "open 20 0 wn", "wv 20 3 1"), (1, "open 30 0 rn", "st 30 5", "rv 30 20 10"), (2,) + DRAIN),
    _w((0, "init 0 8 4 - -1", "open 1 0 wn", "wv 1 2 2 1"), (1, "open 10 0 rn", "rv 10 20 2", "st 10 -"), (1, "open 20 0 rn", "rv 20 20 2", "st 20 -"), (2,) + DRAIN),
    _w((0, "init 0 8 4 - 9", "open 1 0 wn"), (1, "open 10 0 wn", "ab 10 9", "ag 10 9"), (1, "open 20 0 wn", "ab 20 9", "ag 20 m"), (1, "open 30 0 rn", "ag 30 m")),
    _w((0, "init 0 8 4 - -1", "open 1 0 wn", "w 1 3"), (1, "open 10 0 rn", "st 10 7", "st 10 -"), (1, "open 20 0 rn", "r 20 5", "st 20 8"), (1, "open 30 0 wn", "w 30 2")),
    _w((0, "init 0 40 4 - -1"), (1, "open 10 0 wnb", "w 10 20", "w 10 30", "cl 10"), (1, "open 20 0 wb", "w 20 15", "fl 20 0", "st 20 -", "w 20 3"), (1, "open 30 0 rn", "rv 30 40 10"), (2,) + DRAIN),
]
INITOPEN = [
    _w((1, "init 0 10 3 - 5"), (1, "open 10 0 wn", "w 10 4", "open 11 0 rn", "r 11 10", "st 11 -"), (2, "open 90 0 rn", "rv 90 100 10", "st 90 -")),
    _w((0, "init 0 10 3 - -1", "open 1 0 wn", "w 1 7"), (1, "init 0 20 5 d 9"), (1, "open 10 0 rn", "rv 10 20 10", "st 10 -", "ag 10 m"), (2, "open 90 0 rn", "rv 90 100 10", "st 90 -")),
    _w((0, "init 0 10 3 - -1"), (1, "init 0 20 5 d 9"), (1, "init 0 15 5 f -1"), (1, "open 10 0 rn", "st 10 -"), (2, "open 90 0 rn", "st 90 -")),
    _w((0, "init 0 10 3 - -1", "open 1 0 wn", "w 1 2"), (1, "init 0 20 5 k 9", "open 20 0 rn", "r 20 10", "st 20 -"), (1, "open 10 0 wn", "w 10 3"), (2, "open 90 0 rn", "rv 90 100 10", "st 90 -")),
    _w((1, "init 0 20 5 k 9", "open 10 0 rn", "st 10 -"), (1, "init 0 10 4 k -1", "open 20 0 rn", "st 20 -"), (2, "open 90 0 rn", "st 90 -")),
]
INTERRUPT = [
    _w((0, "init 0 4 2 - -1"), (1, "open 10 0 r", "pf 10 0", "r 10 4", "r 10 4"), (1, "pv 0 1", "pv 0 0"), (1, "open 20 0 w", "w 20 3"), (2,) + FILL),
    _w((0, "init 0 4 2 - -1", "open 1 0 wn", "w 1 4"), (1, "open 10 0 w", "pf 10 0", "w 10 4", "w 10 4"), (1, "pv 0 1", "pv 0 0"), (1, "open 20 0 rn", "r 20 4"), (2,) + DRAIN),
    # a blocking buffered writer interrupted in a flush, and by a write its buffer cannot take
    _w((0, "init 0 5 3 - -1", "open 1 0 wn", "w 1 4"), (1, "open 10 0 wb", "pf 10 0", "w 10 3", "fl 10 1", "w 10 4", "fl 10 0"), (1, "pv 0 1", "pv 0 0"), (1, "open 20 0 rn", "r 20 5"), (2,) + DRAIN),
]
# victims are killed at each of their switching points in turn: (victim process, scenario)
KILL = [
    (1, _w((0, "init 0 10 3 - -1", "open 1 0 rn"), (1, "open 10 0 w", "w 10 4", "w 10 3", "cl 10"), (1, "open 20 0 r", "r 20 10"), (1, "open 30 0 r", "r 30 10"), (2,) + FILL, (3,) + DRAIN)),
    (1, _w((0, "init 0 4 2 - -1", "open 1 0 wn", "wv 1 2 2"), (1, "open 10 0 r", "r 10 4", "r 10 4", "cl 10"), (1, "open 20 0 w", "w 20 1"), (1, "open 30 0 w", "w 30 2"), (2,) + DRAIN, (3,) + FILL)),
    (1, _w("N", (0, "init 0 10 3 - -1"), (1, "open 10 0 r", "r 10 10", "cl 10", "open 11 0 r", "r 11 10"), (1, "open 20 0 w", "w 20 4", "cl 20", "open 21 0 w", "w 21 1"), (2, "open 30 0 r", "r 30 10"), (3,) + FILL, (4,) + DRAIN)),
    (1, _w("N", (0, "init 0 4 1 - -1"), (1, "open 10 0 w", "w 10 4", "w 10 2", "cl 10"), (1, "open 20 0 r", "r 20 4", "cl 20", "open 21 0 r", "r 21 4"), (2, "open 30 0 w", "w 30 3"), (3,) + DRAIN, (4,) + FILL)),
    (1, _w((0, "init 0 40 3 - -1"), (1, "open 10 0 wb", "w 10 20", "w 10 10", "fl 10 1", "w 10 4", "cl 10"), (1, "open 20 0 r", "r 20 40", "r 20 40"), (2,) + DRAIN, (3,) + FILL)),
    (1, _w((0, "init 0 6 2 f -1", "open 1 0 rn"), (1, "open 10 0 w", "w 10 4", "w 10 4", "wv 10 2 2"), (1, "open 20 0 r", "r 20 10"), (1, "open 30 0 r", "r 30 10", "fs 30 1"), (2,) + FILL, (3,) + DRAIN)),
    (1, _w((0, "init 0 10 3 - 8"), (1, "open 10 0 wn", "as 10 8", "ab 10 8", "st 10 5"), (1, "open 20 0 rn", "ag 20 m", "st 20 -"), (2, "open 30 0 rn", "ag 30 m", "st 30 -"))),
    (1, _w((0, "init 0 4 2 - -1", "open 1 0 wn", "w 1 4"), (1, "open 10 0 wnb", "w 10 3", "fl 10 1"), (1, "open 20 0 w", "w 20 2"), (2,) + DRAIN, (3, "open 30 0 r", "r 30 10"), (4,) + FILL)),
]


def directed(seed, kind, runs, bounds=(2,)):
    sc = []
    for i, ls in enumerate(globals()[kind]):
        for b in bounds:
            sc.append(("%s-%d-b%d" % (kind, i, b), "d %d %d %d 0" % (seed, runs, b), ls))
    return sc


def kills(seed, rounds, maxpoints=400):
    sc = []
    for i, (v, ls) in enumerate(KILL):
        for k in range(rounds):
            sc.append(("kill-%d-%d" % (i, k), "%s %d %d 0 %d" % ("rp"[k & 1], seed * 1000 + k, maxpoints, v + 2), ls))
    return sc


# creators killed at every access to the new file: (victim process, scenario)
INITKILL = [
    (1, _w((0, "init 0 10 3 - -1", "open 1 0 wn", "w 1 7"), (1, "init 0 20 5 d 9"), (1, "open 10 0 rn", "rv 10 20 10", "st 10 -", "ag 10 m"),
           (2, "open 90 0 rn", "rv 90 100 10", "st 90 -", "ag 90 m"))),
    (0, _w((1, "init 0 20 5 f 9"), (1, "open 10 0 rn", "st 10 -", "ag 10 m"), (2, "open 90 0 rn", "st 90 -", "ag 90 m"))),
    (0, _w((1, "init 0 20 5 d 9"), (1, "init 0 20 5 k 9", "open 10 0 wn", "w 10 3", "st 10 -"), (2, "open 90 0 rn", "rv 90 100 10", "st 90 -", "ag 90 m"))),
    (0, _w((1, "init 0 20 5 s 9", "init 0 10 2 f -1"), (2, "open 90 0 wn", "w 90 3", "st 90 -"), (3, "init 0 8 2 - -1", "open 91 0 rn", "st 91 -"))),
]


def initkills(seed, rounds):
    return [("initkill-%d-%d" % (i, k), "r %d 600 3 %d" % (seed * 1000 + k, v + 2), ls) for i, (v, ls) in enumerate(INITKILL) for k in range(rounds)]


def places(seed):
    """All places taken by processes that die; taken again while the dead are not reaped."""
    sc = []
    for i, (fl, extra) in enumerate((("r", ()), ("w", ()), ("rn", ("N",)), ("w", ("N",)))):
        ops = ["open %d 0 %s" % (100 + j, fl) for j in range(64)]
        again = ["open %d 0 %s" % (200 + j, fl) for j in range(66)]
        other = "open 1 0 wn" if fl[0] == "r" else "open 1 0 rn"
        act = "w 1 3" if fl[0] == "r" else "r 1 10"
        ls = _w(*(extra + ((0, "init 0 10 3 - -1"), (1,) + tuple(ops), "K", (2,) + tuple(again) + tuple(["cl 210", "cl 201", "open 270 0 %s" % fl, "open 271 0 %s" % fl]), (3, other, act, act), (4, "open 2 0 rn", "st 2 -"))))
        sc.append(("places-%d" % i, "r %d 3 0 0" % seed, ls))
        # each in its own process, some blocked
        procs = [(1, "open %d 0 %s" % (10 + j, fl), ("r %d 10" if fl[0] == "r" else "w %d 9") % (10 + j)) for j in range(12)]
        ls = _w(*(extra + ((0, "init 0 10 3 - -1"),) + tuple(procs) + ("K", (2,) + tuple(again[:66]), (3, other, act))))
        sc.append(("places-many-%d" % i, "r %d 3 0 0" % seed, ls))
    return sc


# ---- the wait/wake library by itself ---------------------------------------
def bw_waiter(r, h, cnt, pf, reopen):
    ops, f = [], 0
    tr = r.choice(("r", "r", "r", "rt"))

    def op(h):
        ops.append("bopen %d 0 %s" % (h, tr))
        if pf and r.random() < .7:
            ops.append("bpf %d %d" % (h, r.randint(0, 1)))
    op(h)
    for _ in range(cnt):
        if r.random() < reopen:
            ops.append("bclose %d" % h)
            h += 1
            op(h)
        x = r.random()
        ops.append("bwait %d" % h if x < .4 else "bsel %d" % h if x < .5 else "bready %d" % h if x < .6 else "blook %d" % h if x < .7 else
                   "bforce %d %d" % (h, r.randint(0, 1)))
        if ops[-1].startswith("bforce"):
            ops.append("blook %d" % h)
    if r.random() < .3:
        ops.append("bclose %d" % h)
    return ops


def bw_waker(r, h, cnt, burst):
    ops = ["bopen %d 0 %s" % (h, r.choice(("w", "w", "w", "wt")))]
    for _ in range(cnt):
        x = r.random()
        if x < .15:
            ops.append("bclose %d" % h)
            h += 1
            ops.append("bopen %d 0 w" % h)
        ops += ["bwake %d" % h] * (r.randint(8, 14) if r.random() < burst else 1)
    return ops


def bw_scenario(r, crash):
    out = (["N"] if r.random() < .5 else []) + ["W 0", "binit 0"]
    if r.random() < .4:
        out += ["bopen 1 0 %s" % r.choice("rw")]
    if r.random() < .4:
        out += ["bopen 2 0 r", "bforce 2 %d" % r.randint(0, 1)]
    k = 1
    pf = r.random() < .3
    for _ in range(r.randint(2, 4)):
        x = r.random()
        out += ["W 1"] + (bw_waiter(r, 10 * k, r.randint(1, 5), pf, .25) if x < .55 else bw_waker(r, 10 * k, r.randint(1, 4), .15) if x < .95 or not pf
                          else ["pv %d %d" % (r.randint(0, 1), r.choice((1, 1, 0))) for _ in range(2)])
        k += 1
    for ph in range(2, 2 + r.randint(1, 3)):
        out += ["W %d" % ph] + (bw_waker(r, 10 * k, r.randint(1, 2), .2) if r.random() < .7 else bw_waiter(r, 10 * k, r.randint(1, 3), pf, .2))
        k += 1
        if crash and r.random() < .2:
            out.append("K")
    return out


def bw_random(seed, count, runs):
    import random
    sc = []
    for i in range(count):
        r = random.Random("bw/%s/%d" % (seed, i))
        crash = int(r.random() < .35)
        sc.append(("bw-%d" % i, "%s %d %d %d %d" % (r.choice("rrp"), r.randint(1, 10 ** 6), runs, r.choice((0, 0, 2)), crash), bw_scenario(r, crash)))
    return sc


BW = [
    # a waiter about to wait, a wake
    _w((0, "binit 0"), (1, "bopen 10 0 r", "bwait 10", "blook 10"), (1, "bopen 20 0 w", "bwake 20"), (2, "bopen 30 0 w", "bwake 30")),
    # reopened in the same place, with the name recurring, while the waker stays connected
    _w("N", (0, "binit 0"), (1, "bopen 10 0 r", "bclose 10", "bopen 11 0 r", "bwait 11"), (1, "bopen 20 0 w", "bwake 20"), (2, "bopen 30 0 w", "bwake 30")),
    _w("N", (0, "binit 0", "bopen 1 0 w"), (1, "bopen 10 0 r", "bclose 10"), (1, "bopen 20 0 r", "bwait 20"), (1, "bopen 30 0 w", "bwake 30", "bwake 30"), (2, "bopen 40 0 w", "bwake 40")),
    # forcing
    _w((0, "binit 0", "bopen 1 0 r", "bforce 1 0"), (1, "bopen 10 0 r", "bforce 10 1", "bwait 10", "bforce 10 0", "blook 10"), (1, "bopen 20 0 w", "bwake 20", "bwake 20")),
    _w((0, "binit 0"), (1, "bopen 10 0 r", "bforce 10 0", "bsel 10", "bready 10", "bforce 10 0"), (1, "bopen 20 0 r", "bforce 20 1", "bforce 20 0", "blook 20"), (1, "bopen 30 0 w", "bwake 30"), (2, "bopen 40 0 w", "bwake 40")),
    # a registered descriptor
    _w((0, "binit 0"), (1, "bopen 10 0 r", "bpf 10 0", "bwait 10", "bwait 10"), (1, "pv 0 1", "pv 0 0"), (1, "bopen 20 0 w", "bwake 20"), (2, "bopen 30 0 w", "bwake 30"), (3, "pv 0 1")),
    # two wakers, a waiter that goes
    _w((0, "binit 0", "bopen 1 0 r", "bforce 1 0"), (1, "bopen 10 0 w", "bwake 10", "bwake 10"), (1, "bopen 20 0 w", "bwake 20"), (1, "bopen 30 0 r", "bclose 30")),
]
BWKILL = [
    (1, _w((0, "binit 0"), (1, "bopen 10 0 r", "bforce 10 1", "bwait 10", "bclose 10", "bopen 11 0 r"), (1, "bopen 20 0 r", "bwait 20"), (1, "bopen 30 0 w", "bwake 30"), (2, "bopen 40 0 w", "bwake 40", "bwake 40"))),
    (1, _w((0, "binit 0"), (1, "bopen 10 0 w", "bwake 10", "bclose 10", "bopen 11 0 w", "bwake 11"), (1, "bopen 20 0 r", "bforce 20 0", "bwait 20"), (1, "bopen 30 0 r", "bclose 30", "bopen 31 0 r"), (2, "bopen 40 0 w", "bwake 40"))),
    (1, _w("N", (0, "binit 0"), (1, "bopen 10 0 r", "bclose 10", "bopen 11 0 r", "bwait 11"), (1, "bopen 20 0 w", "bwake 20", "bwake 20"), (2, "bopen 30 0 r", "bwait 30"), (3, "bopen 40 0 w", "bwake 40"))),
]


def bw_kills(seed, rounds):
    return [("bwkill-%d-%d" % (i, k), "%s %d 400 0 %d" % ("rp"[k & 1], seed * 1000 + k, v + 2), ls) for i, (v, ls) in enumerate(BWKILL) for k in range(rounds)]


def bw_places(seed):
    """All 64 places, in one process or many; reuse in other orders; wakes of every kind reach all; names recur."""
    import random
    sc = []
    for i in range(6):
        r = random.Random("bwplaces/%s/%d" % (seed, i))
        nm = ("N",) if i & 1 else ()
        kill = i % 3 == 2
        first = ["bopen %d 0 r" % (100 + j) for j in range(64)]
        first += ["bopen 170 0 r"] if not kill else []
        live, nxt, ops = list(range(100, 164)), 171, []
        for h in live:
            ops.append("bforce %d 0" % h)
        if not kill:
            for _ in range(12):
                gone = r.sample(live, r.randint(1, 6))
                for h in gone:
                    live.remove(h)
                    ops.append("bclose %d" % h)
                for _ in gone + [0]:
                    ops += ["bopen %d 0 r" % nxt, "bforce %d 0" % nxt]
                    if len(live) < 64:
                        live.append(nxt)
                    nxt += 1
                nxt += 0
                if nxt > 280:
                    break
        wk = ["bopen 1 0 w"] + ["bwake 1"] * 3
        if kill:
            ls = _w(*(nm + ((0, "binit 0"), (1,) + tuple(first), (1, "bopen 2 0 w", "bwake 2"), "K",
                            (2,) + tuple("bopen %d 0 r" % (200 + j) for j in range(66)), (3,) + tuple(wk))))
        else:
            ls = _w(*(nm + ((0, "binit 0", "bopen 3 0 w"), (1,) + tuple(first), (2,) + tuple(wk), (3, "bopen 4 0 w", "bwake 4"))))
            sc.append(("bwplaces-%d" % i, "r %d 4 0 0" % seed, ls))
            ls = _w(*(nm + ((0, "binit 0") + tuple(first) + tuple(ops) + tuple(wk),)))
            sc.append(("bwplaces-seq-%d" % i, "r %d 1 0 0" % seed, ls))
            # wakes in between
            ls2 = ["bopen 1 0 w", "bopen 2 0 wt"]
            for o in ops:
                ls2.append(o)
                if r.random() < .15:
                    ls2.append("bwake %d" % r.randint(1, 2))
            ls = _w(*(nm + ((0, "binit 0") + tuple(first) + tuple(ls2),)))
            sc.append(("bwplaces-mix-%d" % i, "r %d 1 0 0" % seed, ls))
            continue
        sc.append(("bwplaces-%d" % i, "r %d 4 0 0" % seed, ls))
    return sc
