"""Common machinery of the checks: building, running executors, running TLC, reporting."""
import json, os, re, shutil, subprocess, sys, tempfile, time, random, signal
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
HARNESS = os.path.join(VERIF, "harness")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
NCPU = min(8, os.cpu_count() or 4)


class BuildError(Exception):
    pass


class Check:
    """One run of the check of one property."""

    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.t0 = time.time()
        self.work = tempfile.mkdtemp(prefix="shr-%s-" % prop, dir="/tmp")
        self.rng = random.Random("%s/%s" % (prop, seed))
        self.violations = []          # (what, replay path)
        self.cov = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "samples": []}
        self.notes = {}
        self.assumptions = []
        self.thorough = tier == "thorough"
        self._built = {}

    def cleanup(self):
        shutil.rmtree(self.work, ignore_errors=True)

    def path(self, *a):
        return os.path.join(self.work, *a)

    def log(self, *a):
        print("[%s %5.1fs]" % (self.prop, time.time() - self.t0), *a, flush=True)

    # ---- building -------------------------------------------------------
    def build(self, mode="asan"):
        if mode not in self._built:
            out = self.path("build-" + mode)
            p = subprocess.run(["bash", os.path.join(HARNESS, "build.sh"), out, mode],
                               env=dict(os.environ, REPO=REPO), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if p.returncode:
                raise BuildError("the harness does not build against the tree:\n" + p.stdout[-3000:])
            self._built[mode] = out
        return self._built[mode]

    # ---- TLC ------------------------------------------------------------
    def tlc(self, module, cfg=None, env=None, workers=1, mem="2g", extra=(), timeout=600, tag=""):
        """Runs TLC, returns (exit code, output, generated, distinct)."""
        md = tempfile.mkdtemp(prefix="md", dir=self.work)
        cmd = ["java", "-Xmx" + mem, "-Xss64m",
               *(("-XX:+UseSerialGC", "-XX:TieredStopAtLevel=1") if workers == 1 else ("-XX:+UseParallelGC",)),
               "-Djava.io.tmpdir=" + self.work, "-cp", JARS, "tlc2.TLC", "-noGenerateSpecTE", "-metadir", md, "-workers", str(workers),
               "-config", cfg or module + ".cfg", *extra, module + ".tla"]
        try:
            p = subprocess.run(cmd, cwd=SPEC, env=dict(os.environ, **(env or {})), stdout=subprocess.PIPE,
                               stderr=subprocess.STDOUT, text=True, timeout=timeout, errors="replace")
            rc, out = p.returncode, p.stdout
        except subprocess.TimeoutExpired as e:
            rc, out = -9, (e.stdout.decode(errors="replace") if isinstance(e.stdout, bytes) else e.stdout or "") + "\nTIMEOUT"
        shutil.rmtree(md, ignore_errors=True)
        m = re.findall(r"(\d+) states generated, (\d+) distinct states found", out.replace(",", ",").replace(",", ","))
        m = re.findall(r"([\d,]+) states generated, ([\d,]+) distinct states found", out)
        g, d = (int(m[-1][0].replace(",", "")), int(m[-1][1].replace(",", ""))) if m else (0, 0)
        return rc, out, g, d

    def model(self, module, cfg=None, workers=4, mem="8g", timeout=800, extra=(), expect=0, name=None):
        """Checks a model exhaustively; a failure of the model itself is an error of the check."""
        for attempt in (1, 2):
            rc, out, g, d = self.tlc(module, cfg, workers=workers, mem=mem, timeout=timeout, extra=extra)
            if rc == expect:
                break
        else:
            print(out[-4000:])
            raise RuntimeError("model %s failed rc=%s" % (name or cfg or module, rc))
        self.cov["states"] += d
        self.cov["transitions"] += g
        self.notes.setdefault("models", []).append({"model": "%s/%s" % (module, name) if name else cfg or module, "generated": g, "distinct": d})
        self.log("model %s: %d distinct states, %d generated" % (name or cfg or module, d, g))
        return out

    # ---- trace validation ------------------------------------------------
    def validate(self, lines, module, cfg=None, shards=None, env=None, mem="2g", timeout=240, weight=None):
        """lines: JSON texts of traces with distinct ids. Returns dict id -> accepted?"""
        if not lines:
            return {}
        ids = [json_id(x) for x in lines]
        assert len(set(ids)) == len(ids), "duplicate trace ids"
        shards = shards or NCPU
        order = sorted(range(len(lines)), key=lambda i: -len(lines[i]))
        groups = [[] for _ in range(min(shards, len(lines)))]
        load = [0] * len(groups)
        for i in order:
            k = load.index(min(load))
            groups[k].append(i)
            load[k] += len(lines[i])
        ok = {}

        def run(k):
            return self._validate_group([lines[i] for i in groups[k]], module, cfg, env, mem, timeout, "%d" % k)
        with ThreadPoolExecutor(NCPU) as ex:
            for r in ex.map(run, range(len(groups))):
                ok.update(r)
        return ok

    def _validate_group(self, lines, module, cfg, env, mem, timeout, tag, depth=0):
        fd, fn = tempfile.mkstemp(prefix="tr", suffix=".json", dir=self.work)
        with os.fdopen(fd, "w") as f:
            f.write("\n".join(lines) + "\n")
        rc, out, g, d = self.tlc(module, cfg, env=dict(env or {}, TRACE=fn), mem=mem, timeout=timeout)
        os.unlink(fn)
        acc = set(re.findall(r'"ACCEPT ([^"]+)"', out))
        res = {json_id(x): json_id(x) in acc for x in lines}
        self.cov["states"] += d
        self.cov["transitions"] += g
        if rc != 0:
            # evaluation error or invariant violation: TLC stopped; isolate the culprit
            if len(lines) == 1 and rc == -9:
                # no answer is no violation
                res[json_id(lines[0])] = True
                self.notes["undecided"] = self.notes.get("undecided", 0) + 1
                return res
            if len(lines) == 1:
                res[json_id(lines[0])] = False
                self.notes.setdefault("tlc_errors", []).append(first_error(out))
                return res
            if rc == -9 and depth >= 1:
                for x in lines:
                    if not res[json_id(x)]:
                        res[json_id(x)] = True
                        self.notes["undecided"] = self.notes.get("undecided", 0) + 1
                return res
            h = [x for x in lines if not res[json_id(x)]] or lines
            if len(h) == 1:
                res.update(self._validate_group(h, module, cfg, env, mem, max(60, timeout // 2), tag, depth + 1))
            else:
                m = len(h) // 2
                res.update(self._validate_group(h[:m], module, cfg, env, mem, max(60, timeout // 2), tag, depth + 1))
                res.update(self._validate_group(h[m:], module, cfg, env, mem, max(60, timeout // 2), tag, depth + 1))
        return res

    def explain(self, line, module, cfg=None, env=None):
        """How far does the specification follow a rejected trace?"""
        fn = self.path("explain.json")
        with open(fn, "w") as f:
            f.write(line + "\n")
        cfgf = os.path.join(SPEC, cfg or module + ".cfg")
        text = open(cfgf).read() + "\nCONSTRAINT Progress\n"
        c2 = os.path.join(self.work, "explain.cfg")
        open(c2, "w").write("".join(l + "\n" for l in text.split("\n") if not l.startswith(("INVARIANT", "PROPERTY"))))
        rc, out, g, d = self.tlc(module, c2, env=dict(env or {}, TRACE=fn), timeout=200)
        at = [int(x) for x in re.findall(r'"AT \S+ (\d+)"', out)]
        return (max(at) if at else 1), first_error(out)

    def report(self, what, replay_lines):
        d = os.path.join(VERIF, "evidence")
        os.makedirs(d, exist_ok=True)
        fn = os.path.join(d, "replay-%s-%d.txt" % (self.prop, len(self.violations) + 1))
        with open(fn, "w") as f:
            f.write(what + "\n\n" + replay_lines + "\n")
        self.violations.append((what, fn))
        print("VIOLATION property=%s replay=%s" % (self.prop, fn), flush=True)
        print("  " + what.replace("\n", "\n  ")[:1500], flush=True)

    def finish(self, level="model_checking"):
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        self.cov.update(self.notes)
        e = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": level,
             "coverage": self.cov, "assumptions": self.assumptions,
             "wall_s": round(time.time() - self.t0, 2), "violations": len(self.violations)}
        if not self.cov["samples"]:
            self.cov["samples"] = ["none"]
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as f:
            json.dump(e, f, indent=1)
        self.log("done: %d violations, %d traces, %d states" % (len(self.violations), self.cov["traces_validated_against_impl"], self.cov["states"]))
        self.cleanup()
        return 1 if self.violations else 0


def json_id(line):
    m = re.match(r'\{"id":"([^"]+)"', line)
    return m.group(1)


def first_error(out):
    i = out.find("Error:")
    return out[i:i + 600] if i >= 0 else ""


_iso = None


def isolate():
    """A network namespace of its own keeps other runs' sockets out of /proc/net/unix."""
    global _iso
    if _iso is None:
        try:
            ok = subprocess.run(["unshare", "-Urn", "true"], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=20).returncode == 0
        except Exception:
            ok = False
        _iso = ["unshare", "-Urn"] if ok else []
    return _iso


def run_seq(ck, scripts, mode="asan", tag="", timeout=300):
    """scripts: list of (id, flags, [lines]). Returns dict id -> json line. Runs in parallel."""
    b = ck.build(mode)
    n = min(NCPU, len(scripts)) or 1
    groups = [scripts[i::n] for i in range(n)]
    res = {}

    def run(k):
        d = tempfile.mkdtemp(prefix="seq", dir="/dev/shm" if os.access("/dev/shm", os.W_OK) else ck.work)
        sf, of = os.path.join(d, "script"), os.path.join(d, "out")
        with open(sf, "w") as f:
            for (i, fl, ls) in groups[k]:
                f.write("T %s %s\n" % (i, fl) + "\n".join(ls) + "\n")
        try:
            p = subprocess.run(isolate() + [os.path.join(b, "seq"), sf, of, d], timeout=timeout, stdout=subprocess.DEVNULL,
                               stderr=subprocess.DEVNULL,
                               env=dict(os.environ, ASAN_OPTIONS="detect_leaks=0:allocator_may_return_null=1:handle_segv=1:abort_on_error=0",
                                        UBSAN_OPTIONS="halt_on_error=1"))
            rc = p.returncode
        except subprocess.TimeoutExpired:
            rc = -9
        out = {}
        if os.path.exists(of):
            for l in open(of, errors="replace"):
                if l.endswith("}\n"):
                    out[json_id(l)] = l.rstrip("\n")
        shutil.rmtree(d, ignore_errors=True)
        return rc, out
    with ThreadPoolExecutor(n) as ex:
        for rc, out in ex.map(run, range(n)):
            res.update(out)
    return res


def seq_conformance(ck, scripts, module="ShrApiTrace", mode="asan", label="trace"):
    """Runs scripts on the real library, validates, re-runs rejections, reports."""
    byid = {s[0]: s for s in scripts}
    out = run_seq(ck, scripts, mode)
    missing = [i for i in byid if i not in out]
    if missing:
        out.update(run_seq(ck, [byid[i] for i in missing], mode))
    ck.log("%s: executed %d of %d" % (label, len(out), len(scripts)))
    lines = list(out.values())
    ok = ck.validate(lines, module)
    bad = [i for i in byid if not ok.get(i)]
    ck.cov["traces_validated_against_impl"] += sum(1 for i in ok if ok[i])
    nev = sum(l.count('"op":') for l in lines)
    ck.notes["events"] = ck.notes.get("events", 0) + nev
    if lines and len(ck.cov["samples"]) < 3:
        ck.cov["samples"].append({"script": byid[json_id(lines[0])][2][:40], "trace": lines[0][:600]})
    ck.log("%s: %d events, %d accepted, %d rejected" % (label, nev, len(lines) - len(bad), len(bad)))
    confirmed = 0
    for i in bad[:12]:
        o2 = run_seq(ck, [byid[i]], mode)
        ok2 = ck.validate(list(o2.values()), module) if o2 else {i: False}
        if ok2.get(i):
            ck.log("rejection of %s did not repeat" % i)
            continue
        if not o2:
            ck.report("execution of script %s produced no trace" % i, "\n".join(byid[i][2]))
            confirmed += 1
            continue
        at, err = ck.explain(o2[i], module)
        evs = json.loads(o2[i])["ev"]
        e = json.dumps(evs[at - 1])[:700] if at <= len(evs) else "?"
        ck.report("%s %s: the specification does not allow event %d: %s %s" % (label, i, at, e, err[:300]),
                  "script:\n" + "\n".join(byid[i][2]) + "\n\ntrace:\n" + "\n".join(json.dumps(x)[:400] for x in evs[:at + 1]))
        confirmed += 1
        if confirmed >= 2:
            break
    return ok


# ---- concurrent histories --------------------------------------------------
def normalize(ev):
    """Sorts neighbouring calls and neighbouring returns (their order means nothing), links calls to returns."""
    out, run = [], []
    for e in ev + [{"k": "end", "p": -1}]:
        if run and (e["k"] != run[0]["k"] or e["k"] not in ("call", "ret")):
            out += sorted(run, key=lambda x: x.get("p", 0))
            run = []
        run.append(e)
    last = {}
    for i, e in enumerate(out):
        if e["k"] == "call":
            e["ri"] = 0
            last[e["p"]] = e
        elif e["k"] == "ret" and e["p"] in last:
            last.pop(e["p"])["ri"] = i + 1
    return out


NOBODY = ["setpriv", "--reuid=65534", "--regid=65534", "--clear-groups"]
_nobody = None


def nobody():
    """Prefix to run a command as an unprivileged user, or None."""
    global _nobody
    if _nobody is None:
        try:
            ok = subprocess.run(NOBODY + ["true"], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=20).returncode == 0
            own = ok and subprocess.run(NOBODY + ["unshare", "-Urn", "true"], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=20).returncode == 0
        except Exception:
            ok = own = False
        _nobody = (NOBODY + (["unshare", "-Urn"] if own else []),) if ok else (None,)
    return _nobody[0]


def run_conc(ck, scen, tag="", timeout=600, budget=0, user=False):
    """scen: list of (id, header, [lines]); header "mode seed runs deep crash".
    user: as an unprivileged user, who sees less of dead processes than root.
    Returns dict history id -> (json line, scenario id), number of runs, completed scenario ids."""
    b = ck.build("plain")
    n = min(NCPU, len(scen)) or 1
    groups = [scen[i::n] for i in range(n)]
    res, runs, complete, seen, failed = {}, 0, set(), set(), []

    def run(k):
        d = tempfile.mkdtemp(prefix="conc", dir="/dev/shm" if os.access("/dev/shm", os.W_OK) else ck.work)
        sf, of = os.path.join(d, "script"), os.path.join(d, "out")
        with open(sf, "w") as f:
            for (i, h, ls) in groups[k]:
                f.write("T %s %s\n" % (i, h) + "\n".join(ls) + "\n")
        try:
            exe, pre = os.path.join(b, "conc"), isolate()
            if user:
                shutil.copy(exe, d)
                for x in (d, sf, os.path.join(d, "conc")):
                    os.chmod(x, 0o755)
                    os.chown(x, 65534, 65534)
                exe, pre = os.path.join(d, "conc"), nobody()
            p = subprocess.run(pre + [exe, sf, of, d, str(budget)], timeout=timeout,
                               stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL,
                               env=dict(os.environ, CONC_CPU=str(sorted(os.sched_getaffinity(0))[k % len(os.sched_getaffinity(0))])))
            rc = p.returncode
        except subprocess.TimeoutExpired:
            rc = -9
        out = open(of, errors="replace").read().split("\n") if os.path.exists(of) else []
        shutil.rmtree(d, ignore_errors=True)
        return rc, out
    with ThreadPoolExecutor(n) as ex:
        for rc, out in ex.map(run, range(n)):
            if rc:
                failed.append(rc)
            for l in out:
                if l.startswith("#runs"):
                    runs += int(l.split()[1])
                elif l.startswith("#complete"):
                    complete.add(l.split()[1])
                elif l.startswith("{") and l.endswith("]}"):
                    d = json.loads(l)
                    body = json.dumps(normalize(d["ev"]), separators=(",", ":"))
                    if body in seen:
                        continue
                    seen.add(body)
                    res[d["id"]] = ('{"id":"%s","ev":%s}' % (d["id"], body), d["id"].rsplit(".", 1)[0])
    return res, runs, complete, failed


def conc_conformance(ck, scen, label="histories", module="ShrConcTrace", budget=0, user=False):
    if ck.violations:
        return
    if user and not nobody():
        ck.log("%s: no unprivileged user to be had" % label)
        return
    byid = {s[0]: s for s in scen}
    res, runs, complete, failed = run_conc(ck, scen, budget=budget, user=user)
    ck.log("%s: %d runs of %d scenarios, %d different histories, %d explored completely%s" %
           (label, runs, len(scen), len(res), len(complete), " executor status %s" % failed if failed else ""))
    if failed and not res:
        raise RuntimeError("the concurrent executor failed: %s" % failed)
    ok = ck.validate([x[0] for x in res.values()], module)
    bad = [i for i in res if not ok.get(i)]
    ck.cov["traces_validated_against_impl"] += len(res) - len(bad)
    ck.notes["schedules"] = ck.notes.get("schedules", 0) + runs
    ck.notes["scenarios_explored_completely"] = ck.notes.get("scenarios_explored_completely", 0) + len(complete)
    if res and len(ck.cov["samples"]) < 3:
        i = next(iter(res))
        ck.cov["samples"].append({"scenario": byid[res[i][1]][2][:40], "history": res[i][0][:800]})
    ck.log("%s: %d accepted, %d rejected" % (label, len(res) - len(bad), len(bad)))
    for i in bad[:2]:
        line, sid = res[i]
        # the same schedule again: it must be rejected again
        again = run_conc(ck, [byid[sid]], user=user)[0]
        lines = [x[0] for x in again.values()]
        ok2 = ck.validate(lines, module)
        if all(ok2.values()) and again:
            ck.log("rejection of %s did not repeat" % i)
            continue
        rej = [x for x in again.values() if not ok2[json_id(x[0])]]
        if rej:
            line = rej[0][0]
        at, err = ck.explain(line, module)
        evs = json.loads(line)["ev"]
        e = json.dumps(evs[at - 1])[:500] if at <= len(evs) else "?"
        ck.report("%s %s: no order of the operations explains the history up to event %d: %s %s" % (label, json_id(line), at, e, err[:300]),
                  "scenario: T %s %s\n" % byid[sid][:2] + "\n".join(byid[sid][2]) + "\n\nhistory:\n" + "\n".join(json.dumps(x)[:400] for x in evs[max(0, at - 40):at + 2]))
        return


# ---- the command line tool ---------------------------------------------------
def build_tool(ck):
    if "tool" not in ck._built:
        out = ck.path("build-tool")
        p = subprocess.run(["bash", os.path.join(HARNESS, "tool", "build.sh"), out], env=dict(os.environ, REPO=REPO),
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode:
            raise BuildError("the tool does not build from the tree:\n" + p.stdout[-3000:])
        ck._built["tool"] = out
    return ck._built["tool"]


_lo = None


def tool_isolate():
    """A network namespace with a loopback device, if that can be had."""
    global _lo
    if _lo is None:
        _lo = isolate()
        if _lo:
            code = "import sys; sys.path.insert(0, %r); import tooldrv; sys.exit(0 if tooldrv.lo_up() else 9)" % os.path.dirname(os.path.abspath(__file__))
            if subprocess.run(_lo + [sys.executable, "-B", "-c", code], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL).returncode:
                _lo = []
    return _lo


def run_tool(ck, scen, timeout=400):
    """scen: list of [kind, id, seed, options]. Returns id -> trace line."""
    b = build_tool(ck)
    n = min(NCPU, len(scen)) or 1
    groups = [scen[i::n] for i in range(n)]
    pre = tool_isolate()

    def run(k):
        d = tempfile.mkdtemp(prefix="tool", dir="/dev/shm" if os.access("/dev/shm", os.W_OK) else ck.work)
        sf, of = os.path.join(d, "scen"), os.path.join(d, "out")
        json.dump(groups[k], open(sf, "w"))
        try:
            p = subprocess.Popen(pre + [sys.executable, "-B", os.path.join(VERIF, "tools", "tooldrv.py"), sf, of, d, b],
                                 env=dict(os.environ, REPO=REPO), stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, start_new_session=True)
            rc = p.wait(timeout)
        except subprocess.TimeoutExpired:
            rc = -9
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except OSError:
            pass
        p.wait()
        out = [l.rstrip("\n") for l in open(of, errors="replace") if l.endswith("}\n")] if os.path.exists(of) else []
        shutil.rmtree(d, ignore_errors=True)
        return rc, out
    res, rcs = {}, []
    with ThreadPoolExecutor(n) as ex:
        for rc, out in ex.map(run, range(n)):
            rcs.append(rc)
            for l in out:
                res[json_id(l)] = l
    return res, rcs


def tool_conformance(ck, scen, module, label):
    """Executions of the tool against a specification.  A rejection that rests on something
    not happening in time has to repeat."""
    if ck.violations or not scen:
        return
    byid = {s[1]: s for s in scen}
    out, rcs = run_tool(ck, scen)
    late = [i for i in out if '"late":true' in out[i][:200]]
    ck.log("%s: executed %d of %d%s" % (label, len(out), len(scen), ", %d did not come to rest" % len(late) if late else ""))
    if not out and 0 not in rcs:
        # nothing at all: the driver itself, or the library in it, fails
        o2, rcs2 = run_tool(ck, scen[:1])
        if not o2:
            if any(r in (1, 2, 9) for r in rcs2):
                raise RuntimeError("the tool driver failed: %s" % rcs2)
            ck.report("%s: the library fails in the driver (status %s)" % (label, rcs2), json.dumps(scen[0]))
            return
    ok = ck.validate(list(out.values()), module)
    bad = [i for i in out if not ok.get(i)]
    missing = [i for i in byid if i not in out] if not late else []
    ck.cov["traces_validated_against_impl"] += len(out) - len(bad)
    nev = sum(l.count('"op":') for l in out.values())
    ck.notes["events"] = ck.notes.get("events", 0) + nev
    if out and len(ck.cov["samples"]) < 3:
        i = next(iter(out))
        ck.cov["samples"].append({"scenario": byid[i], "trace": out[i][:700]})
    ck.log("%s: %d events, %d accepted, %d rejected, %d without trace" % (label, nev, len(out) - len(bad), len(bad), len(missing)))
    for i in (bad + missing)[:4]:
        line = out.get(i)
        if line is None or '"late":true' in line[:200]:
            for k in range(3):
                o2, rcs = run_tool(ck, [byid[i]], timeout=150)
                if i not in o2:
                    ck.report("%s: scenario %s ends the driver (status %s)" % (label, byid[i], rcs), json.dumps(byid[i]))
                    return
                if not ck.validate([o2[i]], module).get(i):
                    line = o2[i]
                    break
            else:
                ck.log("rejection of %s did not repeat" % i)
                continue
        at, err = ck.explain(line, module)
        evs = json.loads(line)["ev"]
        e = json.dumps(evs[at - 1])[:500] if at <= len(evs) else "?"
        ck.report("%s %s: the specification does not allow event %d: %s %s" % (label, i, at, e, err[:300]),
                  "scenario: %s\n\ntrace:\n" % json.dumps(byid[i]) + "\n".join(json.dumps(x)[:400] for x in evs[max(0, at - 40):at + 1]))
        return
