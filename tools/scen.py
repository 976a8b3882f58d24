"""Directed scripts for the sequential executor."""
from gen import Sim, Ring


def drain(s, f=0):
    x = s.open(f, "rn")
    if not x:
        return
    s.stat(x)
    while x.avail():
        s.read(x, x.r.n, 50)
    s.read(x, x.r.n)
    s.stat(x)


def cache_limits(g):
    """C07: the limits of the buffer: 10% of the ring, 10000 messages"""
    out = []
    for i, (n, mm) in enumerate(((10239, -1), (10240, -1), (10250, 9), (20000, 40), (200, 5), (1000000, 20000), (1000000, 10000), (1000000, 9999))):
        for nb in ("", "n"):
            s = Sim(g)
            s.init(0, n, mm)
            w = s.open(0, "wb" + nb)
            r = s.open(0, "rn")
            cb, cm = w.r.cbytes(), w.r.cmsgs()
            if n < 1000000:
                # fill the buffer exactly, then one byte more
                for rest in (0, -1, 1):
                    k = min(cm - 1, 3)
                    part = cb // (k + 1)
                    for _ in range(k):
                        s.write(w, [part])
                    s.stat(w)
                    s.write(w, [max(1, cb - k * part + rest)])
                    s.stat(w)
                    s.write(w, [1])
                    s.stat(w)
                    s.flush(w, 0)
                    s.stat(w)
                    while r.avail():
                        s.read(r, n, 20)
                s.write(w, [cb + 1])       # larger than the buffer
                s.write(w, [2])
                s.write(w, [min(n, cb + 2)])
                s.stat(w)
                while r.avail():
                    s.read(r, n, 20)
            else:
                for k in (4000, 4000, 1998, 1, 1, 1, 1, 1):
                    s.write(w, [g.randint(1, 3) for _ in range(k)], True)
                    s.stat(w)
                s.write(w, [1] * 9999, True)
                s.stat(w)
                s.write(w, [1, 1], True)
                s.stat(w)
                while r.avail():
                    s.read(r, n, 9000)
                s.write(w, [1] * 10001, True)
                s.stat(w)
            s.close(w)
            while r.avail():
                s.read(r, n, 12000)
            s.read(r, n)
            s.stat(r)
            out.append(s.lines)
    return out


def small_sweep(g, nmax, kinds=("", "d", "f")):
    """every small ring, walked through every position with every message length"""
    out = []
    for kind in kinds:
        for n in range(1, nmax + 1):
            for mm in (1, 2, 3, n + 1):
                s = Sim(g)
                s.init(0, n, mm, kind or "-")
                w, r = s.open(0, "wn"), s.open(0, "rn")
                keep = 0
                for a in range(1, n + 1):
                    for b in range(1, n + 1):
                        s.write(w, [a])
                        s.write(w, [b])
                        s.write(w, [a, b], True)
                        keep += 1
                        if keep % 3:
                            s.read(r, n)
                        if keep % 5 == 0:
                            s.read(r, a + b, 2)
                        if keep % 7 == 0:
                            s.stat(w)
                            if kind == "f":
                                s.o("fs", r.h, keep % 2)
                while r.avail():
                    s.read(r, n, 3)
                s.read(r, n)
                s.stat(r)
                out.append(s.lines)
    return out


def places(g, limit=64):
    """C15: 64 waiting places of each kind, one more refused, reuse in any order"""
    out = []
    for kind in ("r", "w", "rn", "wnb"):
        s = Sim(g)
        s.init(0, 100, 10)
        wr = s.open(0, "w" if kind[0] == "r" else "rn")
        hs = []
        if kind == "wnb":
            # non-blocking writers get a place when they first have to wait in a flush
            for _ in range(limit + 3):
                x = s.open(0, "wnb")
                s.write(x, [1])
                s.flush(x, 1)
                rd = s.open(0, "rn") if False else None
                s.lines.append("r %d 100" % wr.h)
                wr.r.pop()
                hs.append(x)
            # every further place is refused, nothing else is disturbed
            s.o("open", 200, 0, "w")
            s.o("w", hs[0].h, 5)
            s.lines.append("st %d" % hs[0].h)
            out.append(s.lines)
            continue
        used = 0 if kind[0] == "r" else 0
        if kind[0] == "w":
            used = 0
        for i in range(limit):
            x = s.open(0, kind)
            hs.append(x)
        for extra in range(2):
            s.o("open", 250 + extra, 0, kind)          # refused
        # readers: everyone is notified; writers: still working
        if kind == "rn":
            s.write(wr, [3])
            s.read(hs[0], 100)
            s.write(wr, [4])
            s.write(wr, [4])
            s.read(hs[63], 100)
            s.read(hs[5], 100)
            s.read(hs[7], 100)
        for rnd in range(6):
            k = (1, 2, 5, 63, 64, 20)[rnd]
            for x in g.sample(hs, min(k, len(hs))):
                if s.close(x):
                    hs.remove(x)
            while len(hs) < limit:
                hs.append(s.open(0, kind))
            s.o("open", 260 + rnd, 0, kind)
            if kind[0] == "r":
                s.write(wr, [2])
                x = g.choice(hs)
                s.read(x, 100)
                if x.nb:
                    s.read(x, 100)
                    s.write(wr, [1])
                    s.read(g.choice(hs), 100)
            else:
                x = g.choice(hs)
                s.write(x, [2])
                s.read(wr, 100)
            s.stat(wr)
        for x in list(hs):
            s.close(x)
        s.close(wr)
        s.o("leak")
        out.append(s.lines)
    return out


def bad_files(g, step=1):
    """C16: truncations of a ring file at every length, foreign and other files"""
    out = []
    for (n, mm, fl, app) in ((50, 4, "-", -1), (33, 3, "d", 7), (20, 2, "f", -1)):
        s = Sim(g)
        s.init(0, n, mm, fl, app)
        w = s.open(0, "wn")
        for l in (5, 9, 4):
            s.write(w, [l])
        s.close(w)
        base = list(s.lines)
        full = 5000
        cuts = list(range(0, 4096, step))
        for c in range(0, len(cuts), 150):
            ls = list(base)
            for k in cuts[c:c + 150]:
                ls.append("mk 1 cut %d 0" % k)
                ls.append("open 3 1 %s" % ("r" if k % 3 else "wn"))
                ls.append("cl 3")
            for k in (-1, -2, -7, -8, -15, -16, -17):
                ls.append("mk 1 cut %d 0" % k)
                ls.append("open 3 1 rn")
                ls.append("cl 3")
            ls.append("leak")
            out.append(ls)
        ls = list(base)
        for k in range(8):
            ls += ["mk 1 magic %d 0" % k, "open 3 1 rn", "cl 3", "open 3 1 w", "cl 3"]
        for k in (0, 1, 8, 100, 1000, 1500, 1900, 2000, 2100, 3000, 4095, 4096, 10000):
            ls += ["mk 1 rand %d" % k, "open 3 1 rn", "cl 3", "mk 1 zero %d" % k, "open 3 1 wn", "cl 3"]
        ls += ["mk 1 gone", "open 3 1 r", "mk 1 empty", "open 3 1 r", "open 3 1 w"]
        for k in (0, 1, 100, 4096):     # a complete ring file, possibly longer (hugetlbfs rounds up)
            ls += ["mk 1 copy %d 0" % k, "open 3 1 rn", "st 3", "rv 3 100 10", "cl 3", "open 3 1 wn", "w 3 3", "cl 3"]
        for fl2 in ("-", "rw", "rwn", "n", "b", "rx", "wx", "x", "rwx", "r", "w", "rb", "wb"):
            ls += ["open 4 0 %s" % fl2, "cl 4"]
        ls.append("leak")
        out.append(ls)
    return out


def leak_base(g, i):
    """sequences of calls in which the k-th fallible call is made to fail"""
    s = Sim(g)
    if i == 0:      # creation and opening
        s.o("leak")
        s.o("FAULT")
        s.init(0, 100, 5, "-", 3)
        for l in ("open 1 0 rn", "cl 1", "leak", "open 1 0 wb", "cl 1", "open 1 0 w", "open 2 0 rn", "open 3 0 r", "open 4 0 wnb", "w 4 3",
                  "fl 4 0", "w 1 2", "r 2 10", "cl 4", "cl 3", "cl 2", "cl 1", "leak"):
            s.lines.append(l)
    elif i in (1, 2, 3, 4, 5):    # opening each kind of handle while others are open
        fl = ("rn", "r", "w", "wb", "wnb")[i - 1]
        s.init(0, 100, 5, "l" if i == 5 else "-", -1)
        for l in ("leak", "open 1 0 rn", "open 2 0 r", "open 3 0 w", "open 9 0 wn", "cl 9", "FAULT", "open 5 0 " + fl, "cl 5", "open 6 0 " + fl, "w 3 4",
                  "rv 1 100 4", "w 3 2", "r 1 10", "cl 6", "cl 3", "cl 2", "cl 1", "leak"):
            s.lines.append(l)
    elif i == 6:    # traffic towards a reader the writer has not met, and back
        s.init(0, 10, 5, "s", 4)
        for l in ("leak", "open 1 0 wn", "open 2 0 rn", "FAULT", "w 1 4", "st 1", "w 1 4", "r 2 10", "st 2", "w 1 5", "open 3 0 w", "rv 2 100 4", "r 2 100",
                  "ag 1 m", "as 1 4", "ab 2 4", "st 1 5", "w 1 2", "wv 1 1 1", "rv 2 100 10", "cl 1", "cl 2", "cl 3", "leak"):
            s.lines.append(l)
    elif i == 7:    # buffered writers
        s.init(0, 10, 5, "-", -1)
        for l in ("leak", "open 1 0 wnb", "open 2 0 rn", "w 1 4", "w 1 4", "FAULT", "fl 1 1", "w 1 6", "w 1 6", "st 1", "rv 2 100 4", "rv 2 100 4", "fl 1 1", "rv 2 100 4", "fl 1 0", "rv 2 100 4",
                  "cl 1", "rv 2 100 4", "cl 2", "leak"):
            s.lines.append(l)
    elif i == 8:    # re-creation of a ring in use, keep-existing
        s.init(0, 10, 5, "-", 3)
        for l in ("leak", "open 1 0 wn", "w 1 4", "FAULT", "init 0 20 4 k -1", "init 0 30 4 - 5", "open 2 0 rn", "st 2", "init 1 20 4 s 5", "open 3 1 rn", "w 1 3",
                  "cl 1", "cl 2", "cl 3", "leak"):
            s.lines.append(l)
    elif i == 9:    # a farm and a drop ring
        s.init(0, 10, 3, "fs", -1)
        for l in ("leak", "open 1 0 wn", "open 2 0 rn", "open 3 0 rn", "FAULT", "w 1 6", "r 2 10", "w 1 6", "wv 1 2 2", "fs 2 0", "rv 2 10 10", "fs 2 1", "r 3 10", "st 1", "cl 3",
                  "w 1 1", "rv 2 10 10", "cl 1", "cl 2", "leak"):
            s.lines.append(l)
    return s.lines


NLEAK = 10


def faults(g, kmax):
    out = []
    for i in range(NLEAK):
        b = leak_base(g, i)
        p = b.index("FAULT")
        for k in range(1, kmax + 1):
            out.append(b[:p] + ["fault %d %d" % (k, (24, 23, 12, 28, 5)[k % 5])] + b[p + 1:])
        # run out of descriptors: all later calls fail when they need more than k
        for k in range(0, 14):
            ls = b[:p] + ["lim %d" % k] + [x.replace("fl 1 1", "fl 1 0") for x in b[p + 1:]]
            out.append(ls[:-1] + ["lim -1", ls[-1]])
    return out


def repeats(g, cnt):
    """opening and closing very often leaves nothing behind"""
    out = []
    for fl in ("rn", "r", "w", "wb", "wnb", "wn"):
        for mode in ("-", "d", "f", "s", "l"):
            s = Sim(g)
            s.init(0, 50, 5, mode, 4)
            s.lines.append("leak")
            for _ in range(cnt):
                x = s.open(0, fl)
                if not x.rd:
                    s.write(x, [2])
                    if "b" in fl and "n" in fl:
                        s.flush(x, 0)
                s.close(x)
                y = s.open(0, "rn")
                s.read(y, 100, 10)
                s.close(y)
            s.lines.append("leak")
            out.append(s.lines)
    for ops in (["init 0 50 4 - 3"], ["init 0 50 4 k 3"], ["init 0 0 4 - 3"], ["init 0 10 4 x -1"], ["open 1 5 r"], ["open 1 0 rw"],
                ["mk 1 empty", "open 1 1 r"], ["mk 1 cut 100 0", "open 1 1 r"], ["mk 1 rand 5000", "open 1 1 wb"], ["mk 1 cut -1 0", "open 1 1 wb"], ["mlockfail 1", "init 2 10 4 l -1", "open 1 2 rn", "open 1 2 wb", "open 1 2 w", "mlockfail 0"]):
        ls = ["init 0 50 4 - 3", "leak"]
        for _ in range(cnt):
            ls += ops
        out.append(ls + ["leak"])
    return out


def lockfail(g):
    """C23: locking the mapping fails"""
    out = []
    for i, fl in enumerate(("r", "rn", "w", "wn", "wb")):
        for j, mode in enumerate(("l", "dl", "fl", "sl", "-")):
            for err in (1, 2, 3) if g is None or (i + j) % 2 == 0 else (1 + (i + j) % 3,):
                s = Sim(g)
                s.init(0, 5000, 9, mode, 100)
                s.lines += ["open 1 0 wn", "locked", "w 1 7", "mlockfail %d" % err, "open 2 0 " + fl, "locked", "mlockfail 0", "open 3 0 " + fl, "locked", "cl 3",
                            "locked", "P", "open 1 0 rn", "locked", "r 1 100", "init 0 5000 9 k -1", "open 2 0 rn", "locked", "leak"]
                out.append(s.lines)
    return out


def msync_failures(g):
    """C18: a call whose effect could not be written to disk must not report success"""
    out = []
    for i in range(12):
        s = Sim(g)
        s.init(0, 40, 6, ("s", "ds", "fs")[i % 3], 5)
        s.lines += ["open 1 0 wn", "open 2 0 rn", "w 1 5", "w 1 6", "msyncfail 1"]
        s.lines += (["w 1 7", "wv 1 1 2 3"], ["r 2 40"], ["rv 2 40 9"], ["as 1 5"], ["st 1 77"], ["ab 1 5"], ["w 1 40"], ["r 2 1", "r 2 40"],
                    ["open 3 0 wnb", "fl 3 1"], ["open 3 0 rn"], ["w 1 0", "w 1 41", "as 1 4"], ["st 2", "ag 2 m"])[i]
        s.lines += ["msyncfail 0", "st 1", "w 1 2", "rv 2 40 9", "rv 2 40 9", "ag 1 m", "w 1 3", "powf 9 0", "open 4 9 rn", "st 4", "rv 4 40 10", "ag 4 m"]
        out.append(s.lines)
    return out


def huge(g, kinds="-"):
    """rings and messages of gigabytes (lengths in MiB): sizes beyond 31 and 32 bits"""
    out = []
    for kind in kinds:
        s = Sim(g)
        s.o("unit", 1 << 20)
        s.init(0, 4400, 5, kind)
        w, r = s.open(0, "wn"), s.open(0, "rn")
        for op in ((1500, 1300), 1601, 1600, "r", (2200, 1), (1498, 1), "rv", "st", (100, 2300), "r1", "r", "rv", "st"):
            if op == "st":
                s.stat(w)
                s.stat(r)
            elif op == "r":
                s.read(r, 4400)
            elif op == "r1":
                s.read(r, 99)
            elif op == "rv":
                s.read(r, 4400, 4)
            elif isinstance(op, tuple):
                s.write(w, list(op), True)
            else:
                s.write(w, [op], False)
        s.close(w)
        s.close(r)
        out.append(s.lines)
    return out


def many(g, kinds="-"):
    """more messages than 16 bits can count"""
    out = []
    for kind in kinds:
        s = Sim(g)
        s.init(0, 150000, 70003, kind)
        w, r = s.open(0, "wn"), s.open(0, "rn")
        for k in range(8):
            s.write(w, [g.randint(1, 2) for _ in range(8900)], True)
        s.stat(w)
        s.read(r, 150000, 66000)
        s.write(w, [1] * 9000, True)
        s.write(w, [2])
        s.stat(r)
        s.read(r, 150000, 71000)
        s.read(r, 3)
        for k in range(8):
            s.write(w, [1] * 8751, True)
        s.read(r, 1)
        s.stat(r)
        out.append(s.lines)
    return out


def wraplens(g):
    """Batches whose lengths add up beyond the range of the type."""
    from gen import WRAPLENS
    out = []
    for fl in "-df":
        for h in ("wn", "w", "wnb", "wb"):
            ls = ["init 0 6 4 %s -1" % fl, "open 1 0 wn", "open 2 0 %s" % h, "open 3 0 rn"]
            for i, t in enumerate(WRAPLENS):
                ls += ["w %d 1" % g.choice((1, 2))] * g.randint(0, 1)
                ls += ["wv 2 " + " ".join(map(str, t)), "st 2 -", "rv 3 20 %d" % g.choice((1, 9))]
            out.append(ls + ["fl 2 1", "cl 2", "rv 3 20 9", "st 3 -"])
    return out
