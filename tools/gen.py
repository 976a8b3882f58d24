"""Generates scripts of calls for the sequential executor.

The class Sim follows the abstract ring closely enough to aim at interesting
situations (exact fits, ring wraps, full buffers, ...) and to avoid calls that would
wait for ever. It decides nothing: what a call must do is decided by the TLA+
specification when the recorded execution is validated."""


class Ring:
    def __init__(self, n, mm, drop, farm, sync, lock, app):
        self.n, self.mm = n, mm if mm > 0 else 100 + n // 100
        self.farm, self.drop = farm, drop or farm
        self.sync, self.lock, self.app = sync, lock, max(app, 0)
        self.st, self.u, self.q, self.wi = [], 0, 0, 0
        self.acked = False    # some call that changed the ring returned success

    def possible(self, ms):
        return bool(ms) and len(ms) <= self.mm and all(0 < m <= self.n for m in ms) and sum(ms) <= self.n

    def fits(self, ms):
        return self.u + sum(ms) <= self.n and len(self.st) + len(ms) <= self.mm

    def can(self, ms):
        return self.drop or self.fits(ms)

    def put(self, ms):
        while self.drop and not self.fits(ms):
            self.pop()
        self.st += ms
        self.acked = True
        self.u += sum(ms)
        self.wi = (self.wi + sum(ms)) % self.n

    def pop(self):
        self.u -= self.st.pop(0)
        self.q += 1

    def cbytes(self):
        t = min(self.n // 10, 1 << 30)
        return self.n if t < 1024 else t

    def cmsgs(self):
        return min(10000, self.mm)


class Handle:
    def __init__(self, h, f, r, rd, nb, buf):
        self.h, self.f, self.r, self.rd, self.nb, self.buf = h, f, r, rd, nb, buf and not rd
        self.cache, self.pos, self.pf, self.w2 = [], r.q, [], False

    def flush_ok(self, nb=None):
        """would not wait"""
        return not self.cache or self.r.can(self.cache) or (self.nb if nb is None else nb)

    def flush(self):
        if self.cache and self.r.can(self.cache):
            self.r.put(self.cache)
            self.cache = []

    def takes(self, ms):
        return sum(self.cache) + sum(ms) <= self.r.cbytes() and len(self.cache) + len(ms) <= self.r.cmsgs()

    def idx(self):
        return max(self.pos, self.r.q) - self.r.q if self.r.farm else 0

    def avail(self):
        return self.idx() < len(self.r.st)


class Sim:
    def __init__(self, rng):
        self.rng, self.lines = rng, []
        self.files, self.hs, self.freeh, self.pv = {}, {}, list(range(300)), {}

    def o(self, *a):
        self.lines.append(" ".join(str(x) for x in a))

    # ---- operations ----
    def init(self, f, n, mm=-1, flags="-", app=-1):
        self.o("init", f, n, mm, flags, app)
        if n <= 0 or "x" in flags:
            return
        if "k" in flags and self.files.get(f) is not None:
            return
        self.files[f] = Ring(n, mm, "d" in flags, "f" in flags, "s" in flags, "l" in flags, app)

    def open(self, f, flags):
        h = self.freeh.pop(0)
        self.o("open", h, f, flags)
        r = self.files.get(f)
        if not isinstance(r, Ring) or ("r" in flags) == ("w" in flags) or "x" in flags:
            self.freeh.append(h)
            return None
        x = Handle(h, f, r, "r" in flags, "n" in flags, "b" in flags)
        self.hs[h] = x
        return x

    def close(self, x):
        if not x.flush_ok() and not x.pf:
            return False
        if x.cache and not x.nb and not x.r.can(x.cache):
            self.o("cl", x.h)
            self.forced(x)
        else:
            self.o("cl", x.h)
            x.flush()
        del self.hs[x.h]
        self.freeh.append(x.h)
        return True

    def forced(self, x):
        """a waiting call was interrupted: the first registered descriptor is readable now"""
        self.pv[x.pf[0]] = 1

    def write(self, x, ms, batch=None):
        """False if the call would wait for ever"""
        r = x.r
        poss = r.possible(ms)
        waits = False
        if poss:
            if not x.buf:
                waits = not r.can(ms) and not x.nb
            elif not x.takes(ms):
                if x.cache and not r.can(x.cache):
                    waits = not x.nb
                elif sum(ms) > r.cbytes() or len(ms) > r.cmsgs():
                    # cache goes first, then the batch itself
                    if r.drop:
                        pass
                    else:
                        waits = not x.nb and (r.u + sum(x.cache) + sum(ms) > r.n or
                                              len(r.st) + len(x.cache) + len(ms) > r.mm)
        if waits and not x.pf:
            return False
        if batch is None:
            batch = len(ms) != 1 or self.rng.random() < .3
        self.o("wv" if batch else "w", x.h, *ms)
        if not poss:
            return True
        if waits:
            self.forced(x)
        if not x.buf:
            if r.can(ms):
                r.put(ms)
            return True
        if x.takes(ms):
            x.cache += ms
            return True
        if x.cache:
            if not r.can(x.cache):
                return True
            x.flush()
        if x.takes(ms):
            x.cache += ms
        elif r.can(ms):
            r.put(ms)
        return True

    def read(self, x, length, niov=None):
        r = x.r
        if length > 0 and niov != 0 and not x.avail() and not x.nb:
            if not x.pf:
                return False
            self.forced(x)
        if niov is None:
            self.o("r", x.h, length)
            niov = 1
        else:
            self.o("rv", x.h, length, niov)
        if length == 0 or niov == 0:
            return True
        x.pos = max(x.pos, r.q)
        k = 0
        while niov and x.avail() and r.st[x.idx()] <= length:
            length -= r.st[x.idx()]
            niov -= 1
            k += 1
            r.acked = True
            if r.farm:
                x.pos += 1
            else:
                r.pop()
        return True

    def flush(self, x, wait):
        if not x.flush_ok(x.nb and not wait):
            if not x.pf:
                return False
            self.forced(x)
        if wait and x.nb and x.cache:
            x.w2 = True     # it has a waiting place from now on
        self.o("fl", x.h, wait)
        x.flush()
        return True

    def stat(self, x, reset=None):
        self.o("st", x.h, "-" if reset is None else reset)
        if reset is not None:
            x.r.acked = True

    def pollfd(self, x, k):
        if k in x.pf or (x.nb and not x.w2) or (not x.rd and x.r.drop and not x.w2):
            return
        x.pf.append(k)
        self.o("pf", x.h, k)

    def pfset(self, k, v):
        self.pv[k] = v
        self.o("pv", k, v)

    def mk(self, f, kind, arg=0, g=0):
        self.o("mk", f, kind, arg, g)
        self.files[f] = None if kind == "gone" else "bad"

    def newproc(self):
        self.o("P")
        self.freeh += list(self.hs)
        self.hs, self.pv = {}, {}

    # ---- choices ----
    def length(self, r):
        """an interesting message length for ring r"""
        g = self.rng
        k = g.random()
        n = r.n
        if k < .30:
            v = g.randint(1, max(1, n // 4))
        elif k < .45:
            v = n - r.u + g.choice((-1, 0, 0, 0, 1))         # exactly full
        elif k < .60:
            v = n - r.wi + g.choice((-1, 0, 0, 1))           # ends at the end of the storage
        elif k < .70:
            v = g.randint(1, n)
        elif k < .76:
            v = n + g.choice((-1, 0, 0, 1, 2))
        elif k < .80:
            v = 0 if g.random() < .3 else n // 2
        elif r.st and k < .90:
            # what becomes free when some messages go
            j = g.randint(1, min(4, len(r.st)))
            v = n - r.u + sum(r.st[:j]) + g.choice((-1, 0, 0, 1))
        else:
            v = g.randint(1, min(n, 8))
        return max(0, min(v, 2 * n + 2))

    def batch(self, r, maxn=6):
        g = self.rng
        k = g.random()
        if k < .25:   # many small messages, around the message limit
            m = max(0, min(r.mm + g.choice((-2, -1, 0, 1)) - (len(r.st) if g.random() < .7 else 0), 60))
            if m == 0:
                m = g.randint(1, 3)
            big = max(1, min(8, r.n // max(1, m)))
            return [g.randint(1, big) for _ in range(m)]
        m = g.randint(1, maxn)
        if k < .45:   # exactly full
            tot = max(0, r.n - r.u + g.choice((-1, 0, 0, 1)))
            if tot >= m:
                c = sorted(g.sample(range(1, tot), m - 1)) if m > 1 and tot > m else []
                return [b - a for a, b in zip([0] + c, c + [tot])]
        if k < .50:
            ms = [self.length(r) for _ in range(m)]
            ms[g.randrange(m)] = 0
            return ms
        if k < .75:
            lim = max(1, (r.n - r.u) // m if r.n > r.u else r.n // m)
            return [g.randint(1, max(1, lim)) for _ in range(m)]
        return [self.length(r) for _ in range(m)]


RING_N = (1, 2, 3, 4, 5, 7, 8, 9, 10, 13, 16, 17, 31, 32, 33, 50, 64, 100, 127, 255, 256, 1000, 1023, 4095, 4096, 5000)


# lengths whose sum wraps around
M63 = 9223372036854775807
WRAPLENS = [(-1,), (1, -1), (2, -1), (-1, 2), (3, -2), (1, -1, 1), (2, 3, -4), (1, M63), (M63, M63, 3), (M63, M63, 4, 1), (1, -3, 3, 1), (M63,), (-2, 1, 2)]


def some_ring(g, kinds="nnndf", big=.05):
    n = g.choice(RING_N) if g.random() < .8 else g.randint(1, 300)
    if g.random() < big:
        n = g.choice((10239, 10240, 10250, 12000, 20000, 65536, 100000))
    k = g.random()
    mm = -1 if k < .3 else g.choice((1, 2, 2, 3, 3, 4, 5, 7, 8, 10, 16, 33)) if k < .93 else g.choice((0, n, n + 1, 100))
    fl = {"n": "-", "d": "d", "f": "f"}[g.choice(kinds)]
    if fl == "f" and g.random() < .3:
        fl = "fd"
    return n, mm, fl


# profile: relative weights of the operations and kinds of rings and handles
BASE = dict(kinds="nnndf", big=.05, write=30, batch=12, read=18, readv=14, open=8, close=5, stat=4, reset=1,
            flush=4, app=0, farmstat=2, init=.3, newproc=.4, pf=0, locked=0, leak=.4, sync=0, mlock=0, appring=.1,
            nb=.75, buf=.25, maxh=6, rfrac=.45, sf=.4, ctl=.1, badopen=.2, poweff=0, mk=0, rawinit=0)

PROFILES = {
    "C01": dict(kinds="n", buf=.1, pf=2),
    "C02": dict(kinds="nnnnd", buf=.08, read=12, readv=8, pf=3),
    "C03": dict(kinds="dddf", buf=.1, write=36, batch=18, read=10, readv=8, stat=8),
    "C04": dict(kinds="f", farmstat=10, open=10, rfrac=.7, write=34),
    "C05": dict(batch=30, readv=30, write=12, read=6, kinds="nndf"),
    "C06": dict(stat=22, reset=8, kinds="nndf", newproc=1, buf=.35),
    "C07": dict(buf=.9, flush=12, close=8, kinds="nnndf", rfrac=.3, nb=.4, big=.3, stat=5, batch=16, pf=9),
    "C08": dict(rfrac=.7, nb=.9, maxh=7, kinds="nndf", open=10),
    "C12": dict(mk=2, rawinit=1.5, init=4, newproc=4, appring=.4, app=5, stat=8, maxh=5),
    "C13": dict(app=24, appring=.85, stat=5, kinds="nndf"),
    "C14": dict(nb=.12, pf=18, kinds="nnnndf", maxh=5, buf=.3),
    "C17": dict(leak=6, close=12, open=14, badopen=3, maxh=4, app=3, appring=.4),
    "C18": dict(sync=1, app=4, appring=.5, stat=5, reset=3, poweff=22, maxh=4, kinds="nndf", buf=.3, newproc=.8),
    "C23": dict(mlock=.5, locked=14, init=3, newproc=2, open=12, close=8),
}


def random_trace(g, prof, steps):
    p = dict(BASE, **prof)
    s = Sim(g)
    s.o("leak")
    ops = ["write", "batch", "read", "readv", "open", "close", "stat", "reset", "flush", "app", "farmstat",
           "init", "newproc", "pf", "locked", "leak", "sf", "ctl", "badopen", "poweff", "mk", "rawinit"]
    wts = [p[k] for k in ops]

    def mkring(f, keep=False):
        n, mm, fl = some_ring(g, p["kinds"], p["big"])
        fl = fl.replace("-", "")
        if g.random() < p["sync"]:
            fl += "s"
        if g.random() < p["mlock"]:
            fl += "l"
        if keep:
            fl += "k"
        if g.random() < .04:
            fl += "x"
        app = g.choice((1, 2, 3, 7, 8, 9, 64, 100, 5000)) if g.random() < p["appring"] else g.choice((-1, -1, -1, 0))
        if g.random() < .02:
            n = 0
        s.init(f, n, mm, fl or "-", app)
    mkring(0)
    if 0 not in s.files:
        s.init(0, 33, 5, "s" if p["sync"] else "-", -1)
    nfiles = 2 if p["init"] >= 1 else 1
    for _ in range(steps):
        op = g.choices(ops, wts)[0]
        hs = list(s.hs.values())
        rs = [x for x in hs if x.rd]
        ws = [x for x in hs if not x.rd]
        if op in ("write", "batch", "flush", "pf") and not ws or op in ("read", "readv", "farmstat") and not rs:
            op = "open"
        if not hs and op in ("close", "stat", "reset", "app", "sf", "ctl", "locked"):
            op = "open"
        if op == "open":
            if len(hs) >= p["maxh"]:
                continue
            f = g.randrange(nfiles)
            rd = (g.random() < p["rfrac"]) if ws and rs else not rs if ws else False if rs else g.random() < .5
            fl = "r" if rd else "w"
            if g.random() < p["nb"]:
                fl += "n"
            if not rd and g.random() < p["buf"] or rd and g.random() < .02:
                fl += "b"
            x = s.open(f, fl)
            if x and x.rd and x.nb and g.random() < .5:
                s.o("sf", x.h)
        elif op == "badopen":
            s.open(g.choice((0, 5)), g.choice(("rw", "-", "rx", "wx", "n", "rwn", "wbx")))
        elif op == "close":
            s.close(g.choice(hs))
        elif op == "write":
            x = g.choice(ws)
            if x.buf and g.random() < .6:
                l = g.randint(1, max(1, min(x.r.n, x.r.cbytes() // 3)))
            else:
                l = s.length(x.r)
            s.write(x, [l])
        elif op == "batch":
            x = g.choice(ws)
            if g.random() < .01:
                s.o("wv", x.h)       # empty batch
            elif g.random() < .01:
                s.o("wv", x.h, *WRAPLENS[g.randrange(len(WRAPLENS))])
            else:
                s.write(x, s.batch(x.r), True)
        elif op in ("read", "readv"):
            x = g.choice(rs)
            r = x.r
            nxt = r.st[x.idx()] if x.avail() else 1
            k = g.random()
            if op == "read":
                l = r.n if k < .6 else nxt + g.choice((-1, 0, 0, 1)) if k < .9 else g.choice((0, 1, r.n + 1, 2 * r.n))
                s.read(x, max(0, l))
            else:
                j = g.randint(1, 5)
                tot = sum(r.st[x.idx():x.idx() + j]) if x.avail() else 4
                l = tot + g.choice((-1, 0, 0, 1)) if k < .55 else r.n if k < .8 else g.randint(0, 2 * r.n)
                nv = g.choice((j, j, j + 1, max(1, j - 1), 1, 10, 10, 0 if g.random() < .2 else 2))
                s.read(x, max(0, l), nv)
        elif op == "stat":
            s.stat(g.choice(hs))
        elif op == "reset":
            s.stat(g.choice(hs), g.randint(0, 2000000000))
        elif op == "flush":
            x = g.choice(ws)
            s.flush(x, 1 if g.random() < .5 else 0)
        elif op == "farmstat":
            s.o("fs", g.choice(rs).h, 1 if g.random() < .4 else 0)
        elif op == "app":
            x = g.choice(hs)
            a = x.r.app
            d = g.choice((0, 0, 0, 0, -1, 1, 10, -a))
            k = g.choice("gmsb")
            sz = max(0, a + d)
            if k == "g":
                s.o("ag", x.h, sz)
            elif k == "m":
                s.o("ag", x.h, "m")
            else:
                s.o("as" if k == "s" else "ab", x.h, sz)
                if sz == a and a:
                    x.r.acked = True
        elif op == "init":
            mkring(g.randrange(nfiles), g.random() < .4)
        elif op == "newproc":
            s.newproc()
            if g.random() < .3:
                s.o("leak")
        elif op == "pf":
            bl = [x for x in hs if (not x.nb and (x.rd or not x.r.drop)) or x.w2]
            if not bl:
                s.open(0, g.choice(("r", "w", "wb")))
                continue
            x = g.choice(bl)
            if len(x.pf) < 2 and g.random() < (.8 if not x.pf else .1):
                s.pollfd(x, g.randrange(4))
            elif x.pf:
                k = g.choice(x.pf)
                s.pfset(k, 0 if s.pv.get(k) and g.random() < .8 else g.randint(0, 1))
        elif op == "locked":
            s.o("locked")
        elif op == "leak":
            if p["leak"] > 2 and g.random() < .5:
                for x in hs:
                    s.close(x)
            s.o("leak")
        elif op == "sf":
            s.o("sf", g.choice(hs).h)
        elif op == "ctl":
            s.o("ctl", g.choice(hs).h, 12345)
        elif op == "poweff":
            powercut(s, 0)
        elif op == "mk":
            f = g.randrange(nfiles)
            s.mk(f, g.choice(("gone", "gone", "empty", "rand", "zero")), g.randint(1, 5000))
        elif op == "rawinit":
            f = g.randrange(nfiles)
            k = g.randrange(6)
            if k == 0:
                s.o("init", f, 0, -1, g.choice("-dfk"), -1)
            elif k == 1:
                s.o("init", f, 10, 4, g.choice(("x", "dx", "kx")), -1)
            elif k == 2:
                s.o("init", f, g.choice((1 << 62, (1 << 63) - 1, -1, (1 << 61))), g.choice((-1, 5)), "-", -1)
            elif k == 3:
                s.o("init", f, 10, g.choice((1 << 60, (1 << 63) - 1)), "-", -1)
            else:
                s.init(f, g.choice((5, 20)), 3, "k" if k == 4 else "-", -1)
    # finally, read what is left
    for f, r in list(s.files.items()):
        if not isinstance(r, Ring):
            s.open(f, "rn")
            continue
        x = s.open(f, "rn")
        if x:
            s.stat(x)
            while x.avail():
                s.read(x, r.n, 40)
            s.read(x, r.n)
            s.o("locked")
    return s.lines


def powercut(s, f):
    """file f as it is on stable storage comes back as file 9; look at everything in it"""
    r = s.files.get(f)
    if not isinstance(r, Ring) or not r.acked:
        return
    s.o("powf", 9, f)
    c = Ring(r.n, r.mm, r.drop, r.farm, r.sync, r.lock, r.app)
    c.st, c.u, c.q, c.wi = list(r.st), r.u, r.q, r.wi
    s.files[9] = c
    x = s.open(9, "rn")
    s.stat(x)
    if c.app:
        s.o("ag", x.h, "m")
    while x.avail():
        s.read(x, c.n, 40)
    s.read(x, c.n)
    s.close(x)
    del s.files[9]
