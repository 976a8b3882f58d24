#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough] - decides one property against /repo's working tree.
Exit 0: held on everything explored. Exit 1 with a VIOLATION line: it is broken."""
import os, sys, traceback
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "tools"))
import vlib, gen, scen, cscen, tour, models
from vlib import seq_conformance, conc_conformance, tool_conformance

TITLE = {}


def rnd(ck, profile, quick, thorough, steps=120, flags=""):
    n = thorough if ck.thorough else quick
    for part in range(0, n, 1500):
        sc = []
        for i in range(part, min(n, part + 1500)):
            import random
            g = random.Random("%s/%s/%d" % (profile, ck.seed, i))
            sc.append(("%s-%d" % (profile, i), flags, gen.random_trace(g, gen.PROFILES[profile], g.choice((steps // 3, steps, steps)))))
        if not seq_conformance(ck, sc, label="random " + profile) or ck.violations:
            return


def directed(ck, name, *args, flags="", mode="asan"):
    if ck.violations:
        return
    sc = [("%s-%d" % (name, i), flags, l) for i, l in enumerate(getattr(scen, name)(ck.rng, *args))]
    seq_conformance(ck, sc, label=name, mode=mode)


def huge(ck, kind):
    """Rings of several gigabytes and rings of many messages, when there is memory for them."""
    directed(ck, "many", kind)
    try:
        free = [int(l.split()[1]) >> 20 for l in open("/proc/meminfo") if l.startswith("MemAvailable")][0]
        v = os.statvfs("/dev/shm")
        shm = v.f_bavail * v.f_frsize >> 30
    except Exception:
        free = shm = 0
    if free >= 16 and shm >= 8:
        directed(ck, "huge", kind, mode="plain")
    else:
        ck.notes["skipped"] = "rings of gigabytes: too little memory"


def tours(ck, *names, **opts):
    """Every edge of the complete state graph of small rings, walked on the real library."""
    tour.run(ck, vlib, names, **opts)


def conc(ck, profile, quick, thorough, runs=15):
    """Random concurrent scenarios, each under several random and priority schedules."""
    n = q(ck, quick, thorough)
    for part in range(0, n, 300):
        sc = cscen.random_scenarios("%s/%d" % (ck.seed, part), profile, min(300, n - part), q(ck, runs, 2 * runs))
        sc = [("%s.%d" % (i, part), h, l) for (i, h, l) in sc]
        conc_conformance(ck, sc, label="concurrent " + profile)


def systematic(ck, *kinds):
    """Directed concurrent scenarios, schedules enumerated up to a number of preemptions."""
    for k in kinds:
        conc_conformance(ck, cscen.directed(ck.seed, k, q(ck, 2500, 60000), q(ck, (1, 2), (1, 2, 3, 12))), label="systematic " + k)


def batches(ck, quick, thorough):
    """Batches of very many messages among concurrent processes."""
    conc_conformance(ck, cscen.batches(ck.seed, q(ck, quick, thorough), q(ck, 10, 30)), label="long batches")


def small(ck, profile, quick, thorough, runs=400):
    """Small random programs, schedules enumerated up to a number of preemptions."""
    n = q(ck, quick, thorough)
    for part in range(0, n, 200):
        sc = cscen.small("%s/%d" % (ck.seed, part), profile, min(200, n - part), q(ck, runs, 5 * runs))
        sc = [("%s.%d" % (i, part), "d %d %s" % (ck.seed, h.split(" ", 2)[2]), l) for (i, h, l) in sc]
        conc_conformance(ck, sc, label="small programs " + profile)


def kills(ck, quick, thorough):
    conc_conformance(ck, cscen.kills(ck.seed, q(ck, quick, thorough)), label="kill at every point")


def design(ck, quick, thorough=(), wrong=()):
    """Models of the mechanism behind the property, explored completely; wrong designs they refute."""
    models.run(ck, list(quick) + (list(thorough) if ck.thorough else []), wrong)


def q(ck, a, b):
    return b if ck.thorough else a


def C01(ck):
    design(ck, ["ring-n", "ring-n1"], ["ring-n+"])
    tours(ck, 'normal', 'normal2', 'bufblock')
    directed(ck, "small_sweep", q(ck, 7, 12), ("",))
    huge(ck, "-")
    rnd(ck, "C01", 500, 6000)
    conc(ck, 'C01', 50, 1500)
    small(ck, 'C01', 50, 1500)


def C02(ck):
    design(ck, ["ring-n1", "ring-n"], ["ring-n+"])
    tours(ck, 'normal', 'block', 'drop')
    directed(ck, "small_sweep", q(ck, 6, 10), ("", "d"))
    directed(ck, "wraplens")
    rnd(ck, "C02", 500, 6000)
    conc(ck, 'C02', 60, 1500)
    small(ck, 'C02', 60, 1500)


def C03(ck):
    design(ck, ["ring-d"], ["ring-d+"])
    tours(ck, 'drop', 'drop2', 'dropbuf')
    directed(ck, "small_sweep", q(ck, 7, 12), ("d", "f"))
    huge(ck, "d")
    rnd(ck, "C03", 500, 6000)
    conc(ck, 'C03', 60, 1500)
    small(ck, 'C03', 60, 1500)


def C04(ck):
    design(ck, ["ring-f", "ring-f2"], ["ring-f+"], ["ring-pos"])
    tours(ck, 'farm', 'farm2', 'farmbuf')
    directed(ck, "small_sweep", q(ck, 7, 12), ("f",))
    huge(ck, "f")
    rnd(ck, "C04", 500, 6000)
    conc(ck, 'C04', 100, 1500)
    small(ck, 'C04', 100, 1500)


def C05(ck):
    design(ck, ["ring-n1", "ring-d"], ["ring-n+", "ring-d+", "ring-f+"])
    tours(ck, 'normal', 'drop', 'farm')
    rnd(ck, "C05", 600, 6000)
    conc(ck, 'C05', 100, 2000)
    batches(ck, 24, 300)
    small(ck, 'C05', 80, 1500)


def C06(ck):
    tours(ck, 'normal2', 'drop', 'farm', 'bufblock', 'dropbuf')
    huge(ck, "-")
    rnd(ck, "C06", 600, 6000)
    systematic(ck, 'ORDER')
    conc(ck, 'C06', 100, 2000)
    small(ck, 'C06', 80, 1500)


def C07(ck):
    tours(ck, 'buffer', 'bufblock', 'dropbuf', 'farmbuf')
    directed(ck, "cache_limits")
    rnd(ck, "C07", 500, 6000)
    systematic(ck, 'INTERRUPT')
    conc(ck, 'C07', 100, 2000)
    small(ck, 'C07', 80, 1500)


def C08(ck):
    design(ck, ["ready3"], ["ready3k"], ["noforce"])
    tours(ck, 'normal2', 'drop2', 'farm2')
    rnd(ck, "C08", 600, 6000)
    systematic(ck, 'READY')
    conc(ck, 'C08', 100, 2000)
    small(ck, 'C08', 150, 3000)


def C09(ck):
    design(ck, ["wait2"], ["wait3", "wait3live"], ["nocompare"])
    systematic(ck, 'WAKE')
    conc(ck, 'C09', 150, 3000)
    small(ck, 'C09', 150, 3000)


def C10(ck):
    systematic(ck, 'ORDER', 'READY')
    conc(ck, 'C10', 150, 3000)
    conc(ck, 'C05', 50, 500)
    batches(ck, 16, 300)
    small(ck, 'C10', 200, 4000)


def C11(ck):
    design(ck, ["wait2"], ["wait3k", "wait3kk"], ["late"])
    kills(ck, 8, 200)
    conc_conformance(ck, cscen.places(ck.seed), label="places after death")
    conc_conformance(ck, cscen.places(ck.seed + 1), label="places after death, unprivileged", user=True)
    conc(ck, 'C11', 120, 3000, runs=20)


def C12(ck):
    design(ck, ["init1", "init2", "init-new"], ["init-keep", "init-many", "init3"], ["reuse"])
    tours(ck, 'again', 'againfarm', 'normal2')
    rnd(ck, "C12", 600, 6000)
    conc(ck, 'C12', 80, 1500)
    small(ck, 'C12', 80, 1500)


def C13(ck):
    tours(ck, 'app', 'again')
    rnd(ck, "C13", 600, 6000)
    conc(ck, 'C13', 60, 1000)
    small(ck, 'C13', 50, 800)


def C14(ck):
    tours(ck, 'block', 'block2', 'bufblock', 'farmbuf')
    rnd(ck, "C14", 600, 6000)
    systematic(ck, 'INTERRUPT')
    conc(ck, 'C14', 100, 2000)
    small(ck, 'C14', 80, 1500)


def C15(ck):
    design(ck, ["wait2"], ["wait4"], ["noprune", "nocount"])
    directed(ck, "places")
    conc_conformance(ck, cscen.places(ck.seed), label='places after death')
    systematic(ck, 'WAKE')
    conc(ck, 'C15', 80, 1500)
    small(ck, 'C15', 60, 1000)


def C16(ck):
    design(ck, ["init1", "init2", "init-new"], ["init-keep", "init-many", "init3"], ["magicfirst", "nosize", "noexcl"])
    conc_conformance(ck, cscen.initkills(ck.seed, q(ck, 4, 40)), label="creators killed at every access")
    directed(ck, "bad_files", q(ck, 3, 1))
    systematic(ck, 'INITOPEN')
    conc(ck, 'C16', 80, 1500)
    small(ck, 'C16', 120, 2000)


def C17(ck):
    tours(ck, 'again', 'app', extra='k')
    directed(ck, "faults", q(ck, 60, 90))
    directed(ck, "repeats", q(ck, 30, 400))
    rnd(ck, "C17", 200, 3000)


def C18(ck):
    design(ck, ["stable", "stable-touched"], ["stable-unlockfirst", "stable+"], ["ctlonly", "noslots", "readfree", "async", "early"])
    tours(ck, 'app', 'dropbuf', extra='s', big=False)
    directed(ck, "msync_failures", flags="d")
    rnd(ck, "C18", 400, 4000, flags="d")


def tool(ck, kind, n, module="RelayTrace", **opts):
    """Scenarios of one kind; options given as tuples are varied."""
    import random
    sc = []
    for i in range(n):
        g = random.Random("%s/%s/%d/%s" % (kind, ck.seed, i, sorted(opts)))
        o = {k: g.choice(v) for k, v in opts.items()}
        sc.append([kind, "%s%s-%d" % (kind, "b" if o.get("big") else "", i), ck.seed, {k: v for k, v in o.items() if v}])
    tool_conformance(ck, sc, module, kind + (" large" if "big" in opts else ""))


def C19(ck):
    tool(ck, "sub", q(ck, 500, 4000), cutr=(0, 3, 20, 500), fl=("", "", "", "d", "f"))
    tool(ck, "pub", q(ck, 300, 2500), cutw=(0, 3, 50, 1000), P=(0, 0, 1), fl=("", "", "", "d", "f"))
    tool(ck, "chain", q(ck, 250, 2000), cutr=(0, 5, 300), cutw=(0, 5, 300), fl=("", "", "d"))
    tool(ck, "sub", q(ck, 24, 200), cutr=(0, 0, 300000, 1000), big=(1 << 20, 1 << 20, 65536, 300000))
    tool(ck, "pub", q(ck, 16, 150), cutw=(0, 0, 300000, 1000), P=(0, 0, 1), big=(1000000, 1000000, 65536, 300000))
    tool(ck, "chain", q(ck, 16, 150), cutr=(0, 0, 300000), cutw=(0, 0, 300000), big=(1000000, 1000000, 65536))


def C20(ck):
    tool(ck, "tee", q(ck, 800, 6000), fl=("", "", "", "d"), od=(0, 1))
    tool(ck, "tee", q(ck, 32, 300), big=(1000000, 1 << 20, 65536, 300000))


def C21(ck):
    tool(ck, "cli", q(ck, 1200, 12000), module="CliTrace")
    tool(ck, "cli", q(ck, 60, 500), module="CliTrace", big=(1,))


def C22(ck):
    design(ck, ["wait3"], ["wait3live", "wait4"], ["noreconnect"])
    def bw(sc, label):
        conc_conformance(ck, sc, label=label, module="BwConcTrace")
    for b in q(ck, (2,), (1, 2, 3, 12)):
        bw([("bw-%d-b%d" % (i, b), "d %d %d %d 0" % (ck.seed, q(ck, 2500, 40000), b), ls) for i, ls in enumerate(cscen.BW)], "systematic wait/wake")
    bw(cscen.bw_places(ck.seed), "64 waiters")
    bw(cscen.bw_kills(ck.seed, q(ck, 8, 100)), "kill at every point")
    n = q(ck, 200, 4000)
    for part in range(0, n, 400):
        bw([("%s.%d" % (i, part), h, l) for (i, h, l) in cscen.bw_random("%s/%d" % (ck.seed, part), min(400, n - part), q(ck, 20, 40))], "random wait/wake")


def C23(ck):
    tours(ck, 'again', extra='l')
    directed(ck, "lockfail")
    rnd(ck, "C23", 400, 4000)


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    ck = vlib.Check(prop, tier, seed)
    try:
        globals()[prop](ck)
        rc = ck.finish()
    except vlib.BuildError as e:
        print(e)
        ck.cleanup()
        rc = 2
    except SystemExit:
        raise
    except BaseException:
        traceback.print_exc()
        ck.cleanup()
        rc = 3
    sys.exit(rc)


if __name__ == "__main__":
    main()
