"""Complete state graphs of small rings (spec/ShrModel.tla), turned into tours of the real library."""
import os, re
from collections import deque

BASE = dict(N=3, MM=2, Mode="n", F0="wn", F1="rn", F2="", Lens=None, Codes=None, ReadLens=None, Iovs=None, AppSz=0, Again=False, Procs=False)


def configs(big):
    """name -> constants; big: larger rings"""
    b = int(big)
    return {
        "normal": dict(N=4 + b, MM=3, F2=""),
        "normal2": dict(N=3, MM=2 + b, F2="rn", Procs=True),
        "block": dict(N=3 + b, MM=2, F0="w", F1="r"),
        "block2": dict(N=3, MM=2, F0="w", F1="r", F2="rn", Procs=bool(b)),
        "buffer": dict(N=2 + b, MM=2, F0="wnb"),
        "bufblock": dict(N=2 + b, MM=2, F0="wb", F1="r"),
        "drop": dict(N=4 + b, MM=3, Mode="d"),
        "drop2": dict(N=3, MM=2, Mode="d", F0="w", F1="r", F2="rn"),
        "dropbuf": dict(N=2 + b, MM=2, Mode="d", F0="wb"),
        "farm": dict(N=3 + b, MM=2, Mode="f"),
        "farm2": dict(N=2 + b, MM=2, Mode="f", F2="rn", Codes=[11] if not b else None),
        "farmbuf": dict(N=2, MM=2, Mode="f", F0="wnb", F1="r"),
        "again": dict(N=2, MM=2, Again=True, Procs=True, AppSz=2, F2="rn" if b else ""),
        "againfarm": dict(N=2, MM=1 + b, Mode="f", Again=True, Procs=True),
        "app": dict(N=3 + b, MM=2, AppSz=3, Procs=True),
    }


def config_text(c, edges):
    c = dict(BASE, **c)
    n, mm = c["N"], c["MM"]
    if c["Lens"] is None:
        c["Lens"] = list(range(0, n + 2))
    if c["Codes"] is None:
        codes = [0, 10 + n, n + 1]
        def grow(code, left, cnt):
            if cnt:
                codes.append(code)
            if cnt < 3:
                for k in range(1, left + 1):
                    grow(code * 10 + k, left - k, cnt + 1)
        grow(0, n, 0)
        codes.append(int("1" * (mm + 1)))
        c["Codes"] = sorted(set(codes))
    if c["ReadLens"] is None:
        c["ReadLens"] = list(range(0, n + 1))
    if c["Iovs"] is None:
        c["Iovs"] = list(range(0, mm + 1))
    t = ["SPECIFICATION Spec", "VIEW View", "CHECK_DEADLOCK FALSE"]
    t += ["INVARIANTS TypeOK NoGap Balance Silent", "PROPERTY StepsOK"]
    if edges:
        t += ["ACTION_CONSTRAINT Edge"]
    t.append("CONSTANTS")
    for k, v in c.items():
        if isinstance(v, bool):
            v = str(v).upper()
        elif isinstance(v, str):
            v = '"%s"' % v
        elif isinstance(v, list):
            v = "{" + ", ".join(map(str, v)) + "}"
        t.append(" %s = %s" % (k, v))
    return "\n".join(t) + "\n", c


def edges(out):
    """(state, call, state) of the printed graph; the first state printed is the initial one"""
    ids, es = {}, []
    for m in re.finditer(r'^"E (.*?) \| (.*?) \| (.*)"$', out, re.M):
        a, b = (ids.setdefault(x, len(ids)) for x in (m.group(1), m.group(3)))
        es.append((a, m.group(2), b))
    return len(ids), sorted(set(es))


def tours(n, es, g, length=250, limit=800000):
    """paths from state 0 that together take every edge"""
    out = [[] for _ in range(n)]
    for k, (a, x, b) in enumerate(es):
        out[a].append((x, b, k))
    todo = [list(o) for o in out]
    for o in todo:
        g.shuffle(o)
    near = [list({b: (x, b) for x, b, k in reversed(o)}.values()) for o in out]
    left = len(es)
    paths = []
    while left and limit > 0:
        cur, path = 0, []
        while left and len(path) < length:
            if not todo[cur]:
                # nearest state with an edge not taken yet
                prev, dq, goal = {cur: None}, deque([cur]), None
                while dq and goal is None:
                    s = dq.popleft()
                    for x, b in near[s]:
                        if b not in prev:
                            prev[b] = (s, x)
                            if todo[b]:
                                goal = b
                                break
                            dq.append(b)
                if goal is None:
                    break
                hop = []
                s = goal
                while prev[s]:
                    hop.append(prev[s][1])
                    s = prev[s][0]
                path += hop[::-1]
                cur = goal
                continue
            x, b, k = todo[cur].pop()
            path.append(x)
            left -= 1
            cur = b
        if not path:
            raise RuntimeError("edges out of reach")
        paths.append(path)
        limit -= len(path)
    return paths, len(es) - left


def scripts(name, c, paths, extra=""):
    """extra: "s" a sync ring, power failing after every call; "l" a locked one, looked at after
    every call; "k" what the process holds is looked at after every call"""
    mode = ("" if c["Mode"] == "n" else c["Mode"]) + extra.replace("k", "")
    first = ["init 0 %d %d %s %d" % (c["N"], c["MM"], mode or "-", c["AppSz"] or -1)]
    after = []
    if "s" in extra:
        first += ["open 9 0 wn", "st 9 1", "cl 9"]    # the first call that has to reach the disk
        after = ["powf 9 0", "open 9 9 rn", "st 9 -", "rv 9 %d %d" % (c["N"], c["MM"]), "r 9 1"]
        after += ["ag 9 m"] if c["AppSz"] else []
        after += ["cl 9"]
    if "l" in extra:
        after = ["locked"]
    if "k" in extra:
        first = ["leak"] + first
        after = ["leak"]
    sc = []
    for i, p in enumerate(paths):
        ls = list(first)
        for x in p:
            if "l" in extra and x.startswith("init "):
                w = x.split(" ")
                w[4] = w[4].replace("-", "") + "l"
                x = " ".join(w)
            ls += x.split(";")
            ls += after
        sc.append(("tour-%s%s-%d" % (name, extra, i), "d" if "s" in extra else "", ls))
    return sc


def run(ck, vlib, names, big=None, extra="", length=250):
    """Explores the graphs exhaustively, walks every edge of them on the real library."""
    for name in names:
        if ck.violations:
            return
        text, c = config_text(configs(ck.thorough if big is None else big)[name], True)
        cfg = ck.path("tour-%s.cfg" % name)
        open(cfg, "w").write(text)
        rc, out, g, d = ck.tlc("ShrModel", cfg, mem="6g", timeout=3000)
        if rc:
            print(out[-4000:])
            raise RuntimeError("model %s fails, rc=%s" % (name, rc))
        ck.cov["states"] += d
        ck.cov["transitions"] += g
        n, es = edges(out)
        ps, walked = tours(n, es, ck.rng, length)
        ck.log("model %s: %d states, %d of %d edges in %d tours of %d calls" % (name, d, walked, len(es), len(ps), sum(map(len, ps))))
        ck.notes.setdefault("models", []).append({"model": "ShrModel/" + name, "generated": g, "distinct": d, "edges": len(es), "edges_walked": walked})
        vlib.seq_conformance(ck, scripts(name, c, ps, extra), label="tour " + name + (" " + extra if extra else ""))
