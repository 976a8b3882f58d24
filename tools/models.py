"""Models of mechanisms, explored completely by TLC: configurations and the wrong designs they refute.
python3 tools/models.py NAME... runs some by hand."""
import os, sys
from concurrent.futures import ThreadPoolExecutor

# name -> (module, constants, invariants, properties, settings)
BW_INV = ["NoneAsleep", "Readable", "InPlace", "Refused", "Bounded", "Known"]


def bw(np, set, places, names, kills, cap=2, qmax=2, variant="code", live=False):
    return dict(module="BlockWakeMC", const=dict(Np=np, Set=set, Cap=cap, Places=places, Names=names, QMax=qmax, Kills=kills, Variant=variant),
                subst=dict(Procs="Np1", Programs="Progs"), inv=BW_INV, prop=["Ends1"] if live else [])


def ring(n, mm, mode, batch=3, variant="code"):
    return dict(module="ShrRing", const=dict(N=n, MM=mm, Mode=mode, MaxBatch=batch, Variant=variant), inv=["Refines", "Inside"], prop=[], view="View")


def creation(creators, keepers, openers, rounds, kills, old, variant="code"):
    return dict(module="InitOpen", const=dict(Creators=creators, Keepers=keepers, Openers=openers, Rounds=rounds, Kills=kills, Old=old, Variant=variant),
                inv=["OnlyWhole", "Undisturbed", "Made"], prop=["MustOpen", "Kept", "Ends"])


def stable(calls, variant="code", procs={1, 2}):
    return dict(module="StableRing", const=dict(Procs=procs, Calls=calls, Variant=variant), inv=["Durable", "Exact"], prop=[])


MODELS = {
    "ring-n": ring(6, 4, "n"), "ring-d": ring(6, 4, "d"), "ring-f": ring(5, 3, "f"),
    "ring-n1": ring(7, 1, "n"), "ring-f2": ring(6, 2, "f"),
    "ring-n+": ring(8, 4, "n", 4), "ring-d+": ring(7, 4, "d", 4), "ring-f+": ring(6, 4, "f", 4),
    "wait2": bw(2, "pair", 2, 3, 1, live=True),
    "wait3": bw(3, "tiny", 3, 3, 1),
    "ready3": bw(3, "ready3", 3, 3, 0),
    "init2": creation({1, 2}, set(), {11}, 1, 1, True), "init-new": creation({1, 2}, set(), {11}, 1, 1, False),
    "init1": creation({1}, set(), {11}, 2, 1, True), "init-keep": creation({1}, {5}, {11}, 2, 1, False),
    "stable": stable(1), "stable-touched": stable(1, "touched"), "stable-unlockfirst": stable(1, "unlockfirst"),
    # thorough
    "init-many": creation({1, 2}, {5}, {11, 12}, 1, 0, True), "init3": creation({1, 2, 3}, set(), {11}, 1, 1, True),
    "stable+": stable(2),
    "wait3k": bw(3, "short", 3, 4, 1),
    "wait3live": bw(3, "tiny", 3, 3, 1, live=True),
    "ready3k": bw(3, "ready", 3, 4, 1),
    "wait4": bw(4, "tiny", 4, 4, 0),
    "wait3kk": bw(3, "tiny", 3, 3, 2),
}
# wrong designs and what must catch them
WRONG = {
    "magicfirst": creation({1}, set(), {11}, 2, 1, True, "magicfirst"), "nosize": creation({1, 2}, set(), {11}, 1, 0, False, "nosize"),
    "noexcl": creation({1, 2}, set(), {11}, 1, 0, False, "noexcl"), "reuse": creation({1, 2}, set(), {11}, 1, 0, True, "reuse"),
    "ctlonly": stable(1, "ctlonly"), "noslots": stable(1, "noslots"), "readfree": stable(1, "readfree"), "async": stable(1, "async"),
    "early": stable(1, "early"),
    "ring-pos": ring(4, 3, "f", variant="pos"),
    "noprune": bw(2, "pair", 1, 3, 1, variant="noprune"),
    "nocount": bw(2, "pair", 2, 3, 0, variant="nocount"),
    "nocompare": bw(2, "pair", 2, 3, 0, variant="nocompare"),
    "noreconnect": bw(3, "short", 3, 3, 1, variant="noreconnect"),
    "late": bw(2, "pair", 2, 3, 1, variant="late"),
    "noforce": bw(2, "pair", 2, 3, 0, variant="noforce"),
}


def config(ck, name, m):
    p = ck.path("model-%s.cfg" % name)
    with open(p, "w") as f:
        f.write("SPECIFICATION Spec\nCONSTANTS\n")
        for k, v in m["const"].items():
            f.write(" %s = %s\n" % (k, '"%s"' % v if isinstance(v, str) else "{%s}" % ", ".join(map(str, sorted(v))) if isinstance(v, set) else "TRUE" if v is True else "FALSE" if v is False else v))
        for k, v in m.get("subst", {}).items():
            f.write(" %s <- %s\n" % (k, v))
        if m["inv"]:
            f.write("INVARIANTS " + " ".join(m["inv"]) + "\n")
        if m["prop"]:
            f.write("PROPERTIES " + " ".join(m["prop"]) + "\n")
        if m.get("view"):
            f.write("VIEW %s\n" % m["view"])
        f.write("CHECK_DEADLOCK FALSE\n")
    return p


def run(ck, names, wrong=(), workers=4, timeout=800):
    for n in names:
        ck.model(MODELS[n]["module"], config(ck, n, MODELS[n]), workers=workers, timeout=timeout, name=n)
    for n in wrong:
        m = WRONG[n]
        rc, out, g, d = ck.tlc(m["module"], config(ck, n, m), workers=workers, timeout=timeout)
        what = [l for l in out.splitlines() if "is violated" in l or "properties were violated" in l]
        if rc not in (12, 13) or not what:
            print(out[-3000:])
            raise RuntimeError("the model does not refute the wrong design " + n)
        ck.log("wrong design %s refuted: %s (%d states)" % (n, what[0].replace("Error: ", ""), d))
        ck.notes.setdefault("refuted", []).append(n)


if __name__ == "__main__":
    sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
    import vlib
    ck = vlib.Check("MODEL", "quick", 1)
    try:
        run(ck, [n for n in sys.argv[1:] if n in MODELS], [n for n in sys.argv[1:] if n in WRONG])
    finally:
        ck.cleanup()
