#!/usr/bin/env python3
"""Drives the real shr-tool and records what it does.
usage: tooldrv.py SCENARIOS(json list) OUT DIR BUILD
A scenario is [kind, id, seed, options]; every choice follows from the seed. One trace is
written per scenario: {"id":..,"kind":..,"ev":[..]}."""
import ctypes as C, fcntl, json, os, random, resource, select, signal, socket, struct, subprocess, sys, time

WAIT = 25.0
LIM = 1 << 20
LOCKS = "dfskl" if resource.getrlimit(resource.RLIMIT_MEMLOCK)[0] in (-1,) or resource.getrlimit(resource.RLIMIT_MEMLOCK)[0] >= 4 << 20 else "dfsk"
RD, WR, NB = 1 << 10, 1 << 11, 1 << 4


def lo_up():
    """In a network namespace of its own the loopback device is down at first."""
    try:
        s = socket.socket(socket.AF_INET, socket.SOCK_DGRAM)
        ifr = struct.pack("16sH14x", b"lo", 0)
        fl = struct.unpack("16sH14x", fcntl.ioctl(s, 0x8913, ifr))[1]
        if not fl & 1:
            fcntl.ioctl(s, 0x8914, struct.pack("16sH14x", b"lo", fl | 1))
        s.close()
        a = socket.socket()
        a.bind(("127.0.0.1", 0))
        a.close()
        return True
    except OSError:
        return False


class Stat(C.Structure):
    _fields_ = [("s", C.c_long), ("us", C.c_long)] + [(k, C.c_size_t) for k in ("bw", "br", "mw", "mr", "md", "bd", "bn", "bu", "mu", "mm", "cn", "cm", "cb")] + [("flags", C.c_uint)]


class Lib:
    def __init__(self, build):
        self.l = C.CDLL(os.path.join(build, "libt.so"))
        f = self.header()
        global RD, WR, NB
        RD, WR, NB = f["SHR_RDONLY"], f["SHR_WRONLY"], f["SHR_NONBLOCK"]
        self.flags = f
        self.l.shr_open.restype = C.c_void_p
        self.l.shr_open.argtypes = [C.c_char_p, C.c_uint]
        self.l.shr_read.restype = self.l.shr_write.restype = C.c_ssize_t
        self.l.shr_read.argtypes = self.l.shr_write.argtypes = [C.c_void_p, C.c_char_p, C.c_size_t]
        self.l.shr_close.argtypes = [C.c_void_p]
        self.l.shr_close.restype = None
        self.l.shr_stat.argtypes = [C.c_void_p, C.POINTER(Stat), C.c_void_p]
        self.l.t_fp.argtypes = [C.c_char_p, C.c_size_t, C.POINTER(C.c_uint32)]
        self.l.t_fp.restype = None
        self.l.t_writev.argtypes = [C.c_void_p, C.c_char_p, C.POINTER(C.c_size_t), C.c_int]

    def header(self):
        """The values of the flags, from the tree's header."""
        repo = os.environ.get("REPO", "/repo")
        src = '#include "shr.h"\nRD SHR_RDONLY\nWR SHR_WRONLY\nNB SHR_NONBLOCK\nDR SHR_DROP\nFA SHR_FARM\nMM SHR_MAXMSGS_2\n'
        out = subprocess.run(["gcc", "-E", "-P", "-I%s/src" % repo, "-"], input=src, capture_output=True, text=True).stdout
        f = {}
        for l in out.split("\n"):
            for k, n in (("RD", "SHR_RDONLY"), ("WR", "SHR_WRONLY"), ("NB", "SHR_NONBLOCK"), ("DR", "SHR_DROP"), ("FA", "SHR_FARM"), ("MM", "SHR_MAXMSGS_2")):
                if l.startswith(k + " "):
                    f[n] = eval(l[3:].replace("U", ""))
        return f

    def fp(self, b):
        h = (C.c_uint32 * 3)()
        self.l.t_fp(b, len(b), h)
        return [len(b), list(h)]


class Ring:
    """The driver's own access to a ring."""

    def __init__(self, lib, path, r):
        self.lib, self.path, self.r = lib, path, r
        self.w = self.rd = None

    def init(self, n, mm, fl):
        f = self.lib.flags
        flags = (f["SHR_DROP"] if "d" in fl else 0) | (f["SHR_FARM"] if "f" in fl else 0) | f["SHR_MAXMSGS_2"]
        self.n, self.mm, self.fl = n, mm, fl
        return self.lib.l.shr_init(self.path.encode(), C.c_size_t(n), C.c_uint(flags), C.c_size_t(mm))

    def writer(self):
        if not self.w:
            self.w = self.lib.l.shr_open(self.path.encode(), WR | NB)
        return self.w

    def reader(self):
        if not self.rd:
            self.rd = self.lib.l.shr_open(self.path.encode(), RD | NB)
        return self.rd

    def write(self, ms):
        lens = (C.c_size_t * len(ms))(*[len(m) for m in ms])
        return self.lib.l.t_writev(self.writer(), b"".join(ms), lens, len(ms))

    def read(self):
        b = C.create_string_buffer(LIM + 8)
        n = self.lib.l.shr_read(self.reader(), b, LIM + 8)
        return n, b.raw[:n] if n > 0 else b""

    def stat(self):
        s = Stat()
        h = self.rd or self.w or self.reader()
        self.lib.l.shr_stat(h, C.byref(s), None)
        return s

    def close(self):
        for h in (self.w, self.rd):
            if h:
                self.lib.l.shr_close(h)
        self.w = self.rd = None


class Dead(Exception):
    pass


class Run:
    def __init__(self, lib, build, d, sid, seed, opt):
        self.lib, self.build, self.d, self.sid, self.opt = lib, build, d, sid, opt
        self.hold = os.path.join(d, "hold")
        self.rng = random.Random("%s/%s" % (sid.split(".")[0], seed))
        self.ev, self.procs, self.rings = [], [], {}
        self.socks, self.late, self.parsed, self.rude = [], False, [], False

    def log(self, op, **kw):
        self.ev.append(dict(op=op, **kw))
        if self.late and op == "quiet":
            raise Dead()

    def path(self, k):
        return os.path.join(self.d, "ring%d" % k)

    def ring(self, k, n=None, mm=None, fl=""):
        if k not in self.rings:
            self.rings[k] = Ring(self.lib, self.path(k), k)
            if n:
                rc = self.rings[k].init(n, mm, fl)
                self.log("mk", r=k, n=n, mm=mm, drop="d" in fl, farm="f" in fl, ret=rc)
        return self.rings[k]

    def start(self, args, cutr=None, cutw=None, tool="shr-tool", **kw):
        env = dict(os.environ)
        if cutr or cutw or args[0] == "pub":
            env["LD_PRELOAD"] = os.path.join(self.build, "preload.so")
            env["HOLD"] = self.hold
        if cutr:
            env["CUTR"] = "%d %d" % cutr
        if cutw:
            env["CUTW"] = "%d %d" % cutw
        env["ASAN_OPTIONS"] = "detect_leaks=0:allocator_may_return_null=1:exitcode=77"
        env["UBSAN_OPTIONS"] = "exitcode=77"
        p = subprocess.Popen([os.path.join(self.build, tool)] + args, env=env, cwd=self.d, stderr=None if os.environ.get("TOOL_VERBOSE") else subprocess.DEVNULL,
                             **dict(dict(stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL), **kw))
        self.procs.append(p)
        return p

    def alive(self):
        for p in self.procs:
            if p.poll() is not None:
                self.log("died", ret=p.returncode)
                raise Dead()

    def until(self, cond, step=None, wait=WAIT):
        """Waits for a condition; false when it does not come true."""
        t0 = time.time()
        nap = 0.0002
        while True:
            if cond():
                return True
            self.alive()
            if time.time() - t0 > wait:
                self.late = True
                return cond()
            if step and step():
                nap = 0.0002
                continue
            time.sleep(nap)
            nap = min(nap * 1.5, 0.01)

    def stop(self):
        for p in self.procs:
            if p.poll() is None:
                p.send_signal(signal.SIGTERM)
        for p in self.procs:
            try:
                p.wait(3)
            except subprocess.TimeoutExpired:
                p.kill()
                p.wait()
        self.procs = []

    def cleanup(self):
        for p in self.procs:
            if p.poll() is None:
                p.kill()
                p.wait()
        for s in self.socks:
            s.close()
        for r in self.rings.values():
            r.close()
        for n in os.listdir(self.d):
            os.unlink(os.path.join(self.d, n))

    def msg(self, n):
        return self.rng.randbytes(n)

    def put(self, k, ms):
        """A batch is offered to ring k by the driver."""
        rc = self.ring(k).write(ms)
        self.log("w", r=k, m=[self.lib.fp(m) for m in ms], ret=rc)
        return rc

    def get(self, k):
        n, b = self.ring(k).read()
        self.log("r", r=k, ret=n, m=[self.lib.fp(b)] if n > 0 else [])
        return n

    def stat(self, k):
        s = self.ring(k).stat()
        self.log("st", r=k, bw=s.bw, br=s.br, mw=s.mw, mr=s.mr, bu=s.bu, mu=s.mu)
        return s

    def length(self, n, big):
        r = self.rng
        if big:
            return r.choice((big, big - 1, big - 4, big // 2, r.randint(1, big), r.randint(1, 5000)))
        return max(1, min(n, r.choice((1, 2, 3, 4, 5, 8, n, n - 1, n // 2, r.randint(1, n), r.randint(1, n)))))

    def lookahead(self):
        """Names, where the tool starts, the messages that are seen to leave it, in order: the
        specification need not try others."""
        for i, e in enumerate(self.ev):
            if e["op"] != "start":
                continue
            seen, rest = [], self.ev[i:]
            if e["kind"] == "relay":
                for k in e["outs"]:
                    if self.rings[k].fl == "":
                        seen = [x["m"][0] for x in rest if x["op"] == "r" and x["r"] == k and x["ret"] > 0]
                        seen = seen[sum(len(x["m"]) for x in self.ev[:i] if x["op"] == "w" and x["r"] == k and x["ret"] > 0):]
                        break
            elif e["kind"] == "pub" and e["prefix"]:
                seen = [x["m"] for x in rest if x["op"] == "frame"]      # (nothing is under way at a disconnect, unless it is a rude one)
            elif e["kind"] == "pub":
                seen = self.parsed
            e["seen"] = [] if self.rude else seen or []

    # ---- kinds ----------------------------------------------------------------
    def port(self):
        s = socket.socket()
        s.setsockopt(socket.SOL_SOCKET, socket.SO_REUSEADDR, 1)
        s.bind(("127.0.0.1", 0))
        p = s.getsockname()[1]
        s.close()
        return p

    def listening(self, port):
        want = "%04X" % port
        try:
            for l in open("/proc/net/tcp"):
                f = l.split()
                if f[3] == "0A" and f[1].endswith(":" + want):
                    return True
        except OSError:
            pass
        return False

    def start_pub(self, k, extra=()):
        for _ in range(6):
            port = self.port()
            a = ["pub", str(port)] + list(extra) + [self.path(k)]
            if self.rng.random() < .3:
                a[1] = "127.0.0.1:%d" % port
            p = self.start(a, cutw=(self.rng.randint(1, 10 ** 6), self.opt.get("cutw", 50)) if self.opt.get("cutw", 50) else None)
            t0 = time.time()
            while time.time() - t0 < WAIT and p.poll() is None:
                if self.listening(port):
                    return port
                time.sleep(.001)
            if p.poll() is None:
                break
            self.procs.remove(p)
        self.log("died", ret=-1)
        raise Dead()

    def nsock(self):
        try:
            d = "/proc/%d/fd" % self.procs[0].pid
            return sum(1 for f in os.listdir(d) if os.readlink(os.path.join(d, f)).startswith("socket:"))
        except OSError:
            return -1

    def pub(self):
        r, o = self.rng, self.opt
        big = o.get("big", 0)
        prefix = not o.get("P")
        fl = o.get("fl", "")
        n = big * 2 if big else r.choice((20, 64, 300, 5000))
        src = self.ring(1, n, r.choice((1, 2, 5, 30)), fl)
        src.writer()
        mx = 999990 if not big else big

        sent = []

        def parse(b, at):
            """Which messages make up the bytes b? (None: cannot say)"""
            out, i = [], 0
            while i < len(b):
                while at < len(sent) and b[i:i + len(sent[at])] != sent[at]:
                    at += 1
                if at == len(sent):
                    return None, at
                out.append(self.lib.fp(sent[at]))
                i += len(sent[at])
                at += 1
            return out, at

        def offer():
            cnt = r.choice((1, 1, 2, 3, 5))
            left = n
            ms = []
            for _ in range(min(cnt, src.mm)):
                l = min(self.length(min(n, mx), big), mx)
                if l > left:
                    break
                if not prefix and fl:
                    l = max(l, 8)
                left -= l
                ms.append(self.msg(l))
            rc = self.put(1, ms) if ms else 0
            if rc > 0:
                sent.extend(ms)
            return rc
        for _ in range(r.choice((0, 0, 2, 4))):
            offer()
        port = self.start_pub(1, () if prefix else ("-P",))
        self.log("start", kind="pub", prefix=prefix)
        st = dict(c=None, buf=b"", total=0, n=0, last=None, mark=b"", sent0=0, pre=[], bytes=0)

        def pump():
            got = False
            while True:
                try:
                    b = st["c"].recv(r.choice((1, 7, 100, 65536, 65536)))
                except (BlockingIOError, InterruptedError):
                    break
                except OSError as e:
                    self.log("error", what=str(e))
                    raise Dead()
                if not b:
                    self.log("eof")
                    raise Dead()
                got = True
                st["buf"] += b
                st["bytes"] += len(b)
                if prefix:
                    while len(st["buf"]) >= 4:
                        l = struct.unpack("=I", st["buf"][:4])[0]
                        if l > 4 * LIM:
                            self.log("badframe", n=l % (1 << 30))
                            raise Dead()
                        if len(st["buf"]) < 4 + l:
                            break
                        body = st["buf"][4:4 + l]
                        self.log("frame", hdr=list(st["buf"][:4]), m=self.lib.fp(body))
                        st["buf"] = st["buf"][4 + l:]
                        st["n"] += 1
                        st["last"] = body
            return got

        def settled():
            s = src.stat()
            if "f" in fl:
                return st["last"] == st["mark"] if prefix else st["buf"].endswith(st["mark"])
            return s.mu == 0 and (st["n"] == s.mr and not st["buf"] if prefix else st["bytes"] == s.br)

        def quiet():
            if "f" in fl:
                # the last message tells that everything before it has come, or was lost
                st["mark"] = self.msg(16)
                if self.put(1, [st["mark"]]) > 0:
                    sent.append(st["mark"])
            self.until(settled, pump)
            if not prefix:
                self.log("raw", s=self.lib.fp(st["buf"]))
                if fl:
                    ms, at = parse(st["buf"], st["sent0"])
                    self.parsed = st["pre"] + ms if ms and not self.late and self.parsed is not None else None
            self.log("quiet", partial=len(st["buf"]) if prefix else 0)

        def connect():
            st["base"] = self.nsock()
            self.log("conn")
            c = socket.socket()
            if r.random() < .3:
                c.setsockopt(socket.SOL_SOCKET, socket.SO_RCVBUF, 4096)
            try:
                c.connect(("127.0.0.1", port))
            except OSError as e:
                time.sleep(.05)
                self.alive()
                self.log("error", what=str(e))
                raise Dead()
            c.setblocking(False)
            self.socks.append(c)
            st.update(c=c, buf=b"", pre=self.parsed or [])
        for _ in range(r.randint(0, 2)):
            offer()
        if r.random() < .5:
            self.stat(1)
        connect()
        for _ in range(r.randint(2, 6) if not big else 3):
            for _ in range(r.randint(1, 5)):
                if offer() == 0:
                    self.until(lambda: offer() > 0, pump)
                if r.random() < .5:
                    pump()
            if r.random() < .5 or big:
                quiet()
            x = r.random()
            if x < .2:
                # someone else asks: refused, without consequences
                e = socket.socket()
                e.settimeout(WAIT)
                e.connect(("127.0.0.1", port))
                try:
                    b = e.recv(100)
                except OSError:
                    b = b""
                if b:
                    self.log("stray", n=len(b))
                e.close()
            elif x < .6 and x >= .4 and fl == "":
                # the client goes away at any moment: what is under way is lost, nothing else
                self.rude = True
                if not self.until(lambda: self.nsock() > st["base"], pump, 5):
                    self.log("unserved")
                    raise Dead()
                # so that the publisher notices by a write that fails
                hold = self.hold + r.choice(("", "b")) if r.random() < .7 else None
                if hold:
                    quiet()
                    open(hold, "w").close()
                    before = src.stat().mr
                for _ in range(r.choice((1, 1, 2, 3))):
                    offer()
                if hold:
                    self.until(lambda: src.stat().mr > before, pump, 3)
                    if r.random() < .5:
                        pump()
                if r.random() < .5:
                    st["c"].setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, struct.pack("ii", 1, 0))
                st["c"].close()
                if hold:
                    os.unlink(hold)
                t0 = time.time()
                while self.nsock() > st["base"] and time.time() - t0 < 5:
                    self.alive()
                    time.sleep(.001)
                self.log("disc")
                st["sent0"] = len(sent)
                for _ in range(r.randint(0, 3)):
                    offer()
                a = self.stat(1)
                st.update(n=a.mr, bytes=a.br)
                connect()
            elif x < .4 and "f" not in fl:
                quiet()
                before = self.nsock()
                if r.random() < .3:
                    st["c"].sendall(b"hello")
                st["c"].close()
                t0 = time.time()
                while self.nsock() >= before and time.time() - t0 < 5:
                    self.alive()
                    time.sleep(.001)
                self.log("disc")
                st["sent0"] = len(sent)
                for _ in range(r.randint(0, 3)):
                    offer()
                if r.random() < .5:
                    self.stat(1)
                connect()
        quiet()
        if "f" not in fl:
            self.stat(1)

    def sub(self):
        r, o = self.rng, self.opt
        big = o.get("big", 0)
        n = (big + r.choice((0, 10, big))) if big else r.choice((10, 40, 300, 4000, 70000))
        mm = r.choice((1, 2, 3, 20, 200))
        fl = o.get("fl", "")
        dst = self.ring(1, n, mm, fl)
        dst.reader()
        count = r.choice((3, 10, 30)) if not big else r.choice((2, 4, 6))
        small = r.random() < .5
        frames = []
        for _ in range(count):
            l = min(LIM, n, self.length(n, big))
            if not big and small:
                l = min(l, r.choice((1, 4, 20, 200)))
            frames.append(self.msg(l))
        stream = b"".join(struct.pack("=I", len(f)) + f for f in frames)
        ends = []
        for f in frames:
            ends.append((ends[-1] if ends else 0) + 4 + len(f))
        lst = socket.socket()
        lst.bind(("127.0.0.1", 0))
        lst.listen(1)
        self.socks.append(lst)
        self.log("start", kind="sub", frames=[self.lib.fp(f) for f in frames])
        cut = self.opt.get("cutr", 0)
        p = self.start(["sub", "127.0.0.1:%d" % lst.getsockname()[1], self.path(1)], cutr=(r.randint(1, 10 ** 6), cut) if cut else None)
        lst.settimeout(WAIT)
        try:
            c, _ = lst.accept()
        except OSError:
            self.alive()
            self.log("died", ret=-2)
            raise Dead()
        c.setsockopt(socket.IPPROTO_TCP, socket.TCP_NODELAY, 1)
        c.setblocking(False)
        self.socks.append(c)
        at = 0

        def drain():
            return self.get(1) > 0 if r.random() < .7 else False
        # where the pieces end: at, just before and just after interesting places, or anywhere
        style = r.choice(("one", "frames", "odd", "bytes", "headers", "few"))
        while at < len(stream):
            if style == "one":
                e = len(stream)
            elif style == "frames":
                k = r.choice((1, 1, 2, 5, 20))
                e = [x for x in ends if x > at][:k][-1]
            elif style == "odd":
                x = r.choice([x for x in ends if x > at][:6])
                e = max(at + 1, min(len(stream), x + r.choice((-5, -3, -1, 0, 1, 2, 3, 4, 5))))
            elif style == "headers":
                x = r.choice([x for x in [0] + ends if x >= at][:3])
                e = max(at + 1, min(len(stream), x + r.choice((1, 2, 3, 4))))
            elif style == "bytes" and len(stream) < 3000:
                e = at + r.choice((1, 1, 1, 2, 3))
            else:
                e = at + r.randint(1, max(1, len(stream) // r.choice((2, 5, 9))))
            e = min(e, len(stream))
            self.log("tx", d=e)
            s = [at]

            def push():
                try:
                    s[0] += c.send(stream[s[0]:e])
                    return True
                except (BlockingIOError, InterruptedError):
                    return drain()
                except OSError as x:
                    self.alive()
                    self.log("error", what=str(x))
                    raise Dead()
            self.until(lambda: s[0] >= e, push)
            at = e
            if r.random() < .06:
                # the publisher goes away: what has arrived is stored, and the subscriber ends
                c.close()
                t0 = time.time()
                while p.poll() is None and time.time() - t0 < WAIT:
                    if not drain():
                        time.sleep(.0005)
                self.log("quiet" if p.poll() is not None else "stuck", partial=0)
                self.procs.remove(p)
                if p.poll() is None:
                    p.kill()
                break
            if r.random() < (.5 if style != "bytes" else .08) or at == len(stream):
                k = sum(1 for x in ends if x <= at)
                self.until(lambda: dst.stat().mw == k, drain)
                self.log("quiet", partial=0)
            while r.random() < .3 and self.get(1) > 0:
                pass
        if p in self.procs and r.random() < .5:
            c.close()
            try:
                p.wait(WAIT)
            except subprocess.TimeoutExpired:
                pass
            self.procs = []
            if p.poll() is None:
                p.kill()
        while self.get(1) > 0:
            pass
        self.stat(1)

    def relay(self, outs):
        """Common end of tee and chain: feeds the source, drains the outputs."""
        r = self.rng
        src = self.ring(1)
        big = self.opt.get("big", 0)
        cap = min([src.n] + [self.ring(k).n for k in outs])

        def offer():
            ms, left = [], src.n
            for _ in range(r.choice((1, 1, 2, 4, 8))):
                l = min(self.length(cap, big), 1000000)
                if l > left or len(ms) == src.mm:
                    break
                left -= l
                ms.append(self.msg(l))
            return self.put(1, ms) if ms else 0

        def drain():
            k = r.choice(outs)
            return self.get(k) > 0

        return offer, drain

    def setup_relay(self, outs):
        r, big = self.rng, self.opt.get("big", 0)
        n = big * 2 if big else r.choice((20, 100, 1000))
        src = self.ring(1, n, r.choice((1, 4, 30)), self.opt.get("fl", ""))
        src.writer()
        dr = r.choice(outs + [0]) if self.opt.get("od") else 0     # an output that drops
        for k in outs:
            o = self.ring(k, r.choice((big, 2 * big, big + 5)) if big else r.choice((5, 20, 100, 1000)), r.choice((1, 2, 10)), "d" if k == dr else "")
            o.reader()

    def tee(self):
        r = self.rng
        outs = [2, 3]
        self.setup_relay(outs)
        offer, drain = self.relay(outs)
        for _ in range(r.choice((0, 2, 5))):
            offer()
        if r.random() < .3:
            self.put(r.choice(outs), [self.msg(1)])   # the outputs are in use already
            done0 = self.ring(2).stat().mw, self.ring(3).stat().mw
        else:
            done0 = 0, 0
        self.base = {2: done0[0], 3: done0[1]}
        self.log("start", kind="relay", outs=outs)
        p = self.start(["tee", self.path(1), self.path(2), self.path(3)])
        if r.random() < .5:
            # messages that were there before it started are moved without any new one
            self.until(lambda: self.moved(outs), drain)
            self.log("quiet", partial=0)
        self.feed2(outs, offer, drain)

    def moved(self, outs):
        s = self.ring(1).stat()
        return s.mu == 0 and all(self.ring(k).stat().mw - self.base.get(k, 0) == s.mr for k in outs)

    def feed2(self, outs, offer, drain):
        r = self.rng
        for _ in range(r.randint(2, 6) if not self.opt.get("big") else 2):
            for _ in range(r.randint(1, 6)):
                if offer() == 0 and r.random() < .5:
                    for _ in range(3):
                        drain()
            if r.random() < .6:
                self.until(lambda: self.moved(outs), lambda: drain() if r.random() < .6 else False)
                self.log("quiet", partial=0)
        self.until(lambda: self.moved(outs), drain)
        self.log("quiet", partial=0)
        for k in outs:
            while self.get(k) > 0:
                pass
            self.stat(k)
        self.stat(1)
        self.stop()
        for k in outs:
            self.get(k)

    def chain(self):
        r = self.rng
        outs = [2]
        self.setup_relay(outs)
        self.base = {}
        offer, drain = self.relay(outs)
        for _ in range(r.choice((0, 2, 5))):
            offer()
        port = self.start_pub(1)
        self.log("start", kind="relay", outs=outs)
        cut = self.opt.get("cutr", 0)
        self.start(["sub", "127.0.0.1:%d" % port, self.path(2)], cutr=(r.randint(1, 10 ** 6), cut) if cut else None)
        self.feed2(outs, offer, drain)

    # ---- the command line -------------------------------------------------------
    def command(self, args, stdin=b"", pieces=None, wait=WAIT):
        """Runs a command to its end; returns (exit status, output); None when it does not end."""
        p = self.start(args, tool="shr-tool-asan", stdin=subprocess.PIPE, stdout=subprocess.PIPE)
        self.procs.remove(p)
        try:
            if pieces:
                for b in pieces:
                    p.stdin.write(b)
                    p.stdin.flush()
                    time.sleep(.001)
                stdin = b""
            out, _ = p.communicate(stdin or None, timeout=wait)
        except subprocess.TimeoutExpired:
            p.kill()
            out, _ = p.communicate()
            self.late = True
            return None, out
        except BrokenPipeError:
            out, _ = p.communicate()
        return p.returncode, out

    def dump(self, text):
        """The messages in the output of readhex; None if it is not a dump."""
        ms = []
        for l in text.decode("latin1").split("\n")[:-1]:
            try:
                off = int(l[:8], 16)
                assert l[8] == " "
                hx = l[9:9 + 48]
                asc = l[9 + 48:]
                b = bytes(int(hx[i:i + 2], 16) for i in range(0, 48, 3) if hx[i:i + 3] != "   ")
                assert hx == "".join("%02x " % x for x in b) + "   " * (16 - len(b))
                assert len(asc) == 16 and all(asc[i] == (chr(b[i]) if 32 <= b[i] <= 126 else ".") for i in range(len(b)))
                if off == 0:
                    ms.append(b)
                else:
                    assert off == len(ms[-1]) and off % 16 == 0
                    ms[-1] += b
            except (ValueError, AssertionError, IndexError):
                return None
        return ms

    def status(self, text):
        d, lines = {}, text.decode("latin1").split("\n")
        for l in lines:
            f = l.split()
            if len(f) == 2 and l.startswith(" ") and f[1].isdigit() and f[0] not in d:
                d[f[0]] = int(f[1]) if int(f[1]) < 2 ** 31 else 2 ** 31 - 1
            elif f and f[0] == "attributes" and "attributes" not in d:
                d["attributes"] = sorted(x for x in f[1:] if x in ("drop", "farm", "mlock", "sync"))
        return d

    def line(self, big=False):
        r = self.rng
        n = r.choice((0, 1, 1, 2, 5, 20, r.randint(1, 60))) if not big else r.choice((0, 1, 998, 999, 1000, 1001, 4095, 4096, 4097, 10000, 70000, r.randint(1, 70000)))
        return bytes(r.choice((0, 13, 255, 32, 65 + i % 26)) if r.random() < .2 else r.choice((9, 11, 12)) if r.random() < .03 else 33 + r.randint(0, 93) for i in range(n)).replace(b"\n", b"x")

    def cli(self):
        r, o = self.rng, self.opt
        big = o.get("big", 0)
        info = {}
        bg = None

        def create(fs=None):
            fs = fs or [r.randint(1, 3)] + ([4] if r.random() < .2 else [])
            sz, unit = r.choice(((r.randint(20, 400), ""), (r.randint(1, 40), "k"), (r.randint(1, 3), "K"), (1, "m"), (1, "M"), (3, "m"), (r.choice((1, 1)), "g" if r.random() < .3 else "k")))
            if big:
                sz, unit = 1, "m"
            x = r.random()
            if x < .04:
                sz = 0
            elif x < .08:
                unit = r.choice("xbB.")
            fl = "".join(c for c in LOCKS if r.random() < (.2 if c != "l" else .05))
            if unit in "gmM":
                fl = fl.replace("l", "").replace("s", "")
            if r.random() < .03:
                fl += "q"
            N = r.choice((0, 0, 1, 2, 5, 100))
            if big and N:
                N = 200
            app = None
            if r.random() < .35:
                app = self.msg(r.choice((0, 1, 5, 300, 5000) if r.random() < .8 else (70000,)))
            args = ["create", "-s", "%d%s" % (sz, unit)]
            if fl:
                args += ["-m", fl]
            if N:
                args += ["-N", str(N)]
            if app is not None:
                open(os.path.join(self.d, "app"), "wb").write(app)
                args += ["-A", os.path.join(self.d, "app")]
            r.shuffle(fs)
            rc, _ = self.command(args + [self.path(f) for f in fs])
            self.log("create", fs=fs, size=sz, unit=unit, N=N, fl=list(fl), hasapp=app is not None, app=self.lib.fp(app or b""), ret=rc if rc is not None else -99)
        create([1, 2])
        # rings whose messages can be stored without waiting are known to the driver by their room
        for _ in range(r.randint(4, 14)):
            f = r.choice((1, 1, 1, 2, 2, 3))
            x = r.random()
            ring = Ring(self.lib, self.path(f), f)
            st = ring.stat() if os.path.exists(self.path(f)) and ring.reader() else None
            ring.close()
            room, slots = (st.bn - st.bu, st.mm - st.mu) if st else (100, 5)
            drop = st and st.flags & self.lib.flags["SHR_DROP"]
            if drop:
                room, slots = st.bn, 1000
            if bg:
                # something runs in the background
                kind, p, f, st0 = bg
                if kind == "w":
                    y = r.random()
                    if y < .7 and p.poll() is None:
                        rg = self.ring(f)
                        n, b = rg.read()
                        self.log("r1", f=f, ret=n, m=[self.lib.fp(b)] if n > 0 else [])
                        time.sleep(r.choice((0, 0, .002)))
                        continue
                    rg = self.ring(f)
                    t0 = time.time()
                    while p.poll() is None and time.time() - t0 < WAIT:
                        n, b = rg.read()
                        if n > 0:
                            self.log("r1", f=f, ret=n, m=[self.lib.fp(b)])
                            t0 = time.time()
                        else:
                            time.sleep(.001)
                    self.late |= p.poll() is None
                    self.log("joinw", f=f, ret=p.poll() if p.poll() is not None else -99)
                else:
                    if r.random() < .5:
                        rg = self.ring(f)
                        m = self.msg(min(rg.stat().bn, r.randint(1, 50)))
                        self.log("w1", f=f, m=[self.lib.fp(m)], ret=rg.write([m]))
                        time.sleep(r.choice((0, 0, .002)))
                        continue
                    N = st0
                    rg = self.ring(f)
                    t0 = time.time()
                    while N and p.poll() is None and time.time() - t0 < WAIT:
                        # enough for it to end
                        m = self.msg(min(rg.stat().bn, r.randint(1, 9)))
                        rc = rg.write([m])
                        self.log("w1", f=f, m=[self.lib.fp(m)], ret=rc)
                        t1 = time.time()
                        while p.poll() is None and time.time() - t1 < .02:
                            time.sleep(.0005)
                    if not N:
                        t0 = time.time()
                        while p.poll() is None and time.time() - t0 < WAIT and (rg.stat().mu or os.fstat(self.outf.fileno()).st_size < rg.stat().br - self.br0):
                            time.sleep(.001)
                    gone = p.poll()
                    self.late |= time.time() - t0 > WAIT
                    if gone is None:
                        p.terminate()
                        try:
                            p.wait(5)
                        except subprocess.TimeoutExpired:
                            p.kill()
                            p.wait()
                    out = open(self.outf.name, "rb").read()
                    self.outf.close()
                    self.log("joinr", f=f, ended=gone is not None, out=self.lib.fp(out))
                self.procs.remove(p)
                self.rings.pop(f).close()
                bg = None
                continue
            if x < .12:
                create()
            elif x < .32:
                lines, k = [], 0
                for _ in range(r.randint(1, 6)):
                    l = self.line(big)
                    if l and (len(l) > room or slots <= 0):
                        continue
                    room -= len(l) if not drop else 0
                    slots -= 1 if l else 0
                    lines.append(l)
                data = b"\n".join(lines) + (b"\n" if r.random() < .7 else b"")
                pieces = None
                if r.random() < .3 and data:
                    cuts = sorted(r.randint(0, len(data)) for _ in range(3))
                    pieces = [b for b in (data[:cuts[0]], data[cuts[0]:cuts[1]], data[cuts[1]:cuts[2]], data[cuts[2]:]) if b]
                rc, _ = self.command(["write", self.path(f)], data, pieces)
                if len(data) <= 3000:
                    self.log("write", f=f, pre=False, bytes=list(data), m=[], ret=rc if rc is not None else -99)
                else:
                    self.log("write", f=f, pre=True, bytes=[], m=[self.lib.fp(l) for l in lines if l], ret=rc if rc is not None else -99)
            elif x < .42:
                m = self.msg(max(1, min(r.choice((1, 2, 3, 16, 40)), room)))
                a = m.hex()
                if r.random() < .3:
                    a = a.upper()
                if r.random() < .35:
                    a = r.choice((a[:-1], a + "0", "", "zz", a[:-1] + "g", "g" + a[1:], "0x" + a, a[:-2] + " 1", a[:-2] + "+1", a[:-2] + "-1", "1g", a + "\n0", a[:-1] + " "))
                if st is None or (slots > 0 and room > 0):
                    rc, _ = self.command(["writehex", a, self.path(f)])
                    self.log("writehex", f=f, arg=list(a.encode()), ret=rc if rc is not None else -99)
            elif x < .52:
                n = r.choice((0, 1, 5, 100, 3000)) if not big else r.choice((1000000, 1048576, 999999, 65536))
                if n <= room and slots > 0 or (st and n > st.bn):
                    m = self.msg(n)
                    open(os.path.join(self.d, "in"), "wb").write(m)
                    rc, _ = self.command(["writefile", os.path.join(self.d, "in"), self.path(f)])
                    self.log("writefile", f=f, m=self.lib.fp(m), ret=rc if rc is not None else -99)
            elif x < .72:
                N = r.choice((0, 0, 1, 2, 3, 10))
                hexa = r.random() < .4 and not big
                rc, out = self.command(["readhex" if hexa else "read"] + (["-N", str(N)] if N else []) + [self.path(f)])
                if rc is None or rc < 0 or rc == 77:
                    self.log("hung", ret=rc)
                elif hexa:
                    ms = self.dump(out)
                    if ms is None:
                        self.log("baddump", text=out[:200].decode("latin1"))
                    else:
                        self.log("readhex", f=f, N=N, m=[self.lib.fp(m) for m in ms])
                else:
                    self.log("read", f=f, N=N, out=self.lib.fp(out))
            elif x < .88:
                ap = os.path.join(self.d, "appout")
                if os.path.exists(ap):
                    os.unlink(ap)
                wa = r.random() < .6
                if wa and r.random() < .4:
                    open(ap, "wb").write(b"#" * 6000)    # something older, longer
                    old = True
                else:
                    old = False
                rc, out = self.command(["status"] + (["-A", ap] if wa else []) + (["-v"] if r.random() < .2 else []) + [self.path(f)])
                got = open(ap, "rb").read() if os.path.exists(ap) else b""
                if old and got == b"#" * 6000:
                    got = b""
                d = self.status(out)
                keys = ("bytes-written", "bytes-read", "bytes-dropped", "messages-written", "messages-read", "messages-dropped", "ring-size", "bytes-ready", "max-messages", "messages-ready", "app-data")
                self.log("status", f=f, ret=rc if rc is not None else -99, asked=wa, app=self.lib.fp(got), s={k.replace("-", "_"): d.get(k, -1) for k in keys}, at=d.get("attributes", ["?"]))
            elif st and not drop and not big and st.bn < 100000:
                if r.random() < .5:
                    # more lines than fit
                    lines = []
                    for _ in range(r.randint(2, 12)):
                        lines.append(bytes(33 + r.randint(0, 90) for _ in range(min(st.bn, r.choice((1, 5, st.bn // 2 + 1, st.bn, r.randint(1, st.bn)))))))
                    data = b"\n".join(lines)
                    inf = os.path.join(self.d, "lines")
                    open(inf, "wb").write(data)
                    self.log("bgw", f=f, m=[self.lib.fp(l) for l in lines])
                    p = self.start(["write", self.path(f)], stdin=open(inf, "rb"))
                    self.ring(f).reader()
                    bg = ("w", p, f, None)
                else:
                    N = r.choice((0, 0, 2, 4))
                    rg = self.ring(f)
                    rg.writer()
                    self.br0 = rg.stat().br
                    self.outf = open(os.path.join(self.d, "out"), "wb")
                    self.log("bgr", f=f, N=N)
                    p = self.start(["read", "-b"] + (["-N", str(N)] if N else []) + [self.path(f)], stdout=self.outf)
                    bg = ("r", p, f, N)
        # what is left
        for f in (1, 2, 3, 4):
            if bg and bg[2] == f:
                continue
            rc, out = self.command(["read", self.path(f)])
            if rc is None or rc < 0 or rc == 77:
                self.log("hung", ret=rc)
            else:
                self.log("read", f=f, N=0, out=self.lib.fp(out))


def main():
    sc = json.load(open(sys.argv[1]))
    out = open(sys.argv[2], "w")
    d, build = sys.argv[3], sys.argv[4]
    signal.signal(signal.SIGPIPE, signal.SIG_IGN)
    if not os.environ.get("TOOL_VERBOSE"):
        dn = os.open("/dev/null", os.O_WRONLY)
        os.dup2(dn, 2)
    if not lo_up():
        sys.exit(9)
    lib = Lib(build)
    late = 0
    for kind, sid, seed, opt in sc:
        wd = os.path.join(d, "w")
        os.makedirs(wd, exist_ok=True)
        x = Run(lib, build, wd, sid, seed, opt)
        try:
            getattr(x, kind)()
        except Dead:
            pass
        x.cleanup()
        x.lookahead()
        late += x.late
        out.write('{"id":"%s","late":%s,"ev":%s}\n' % (sid, json.dumps(x.late), json.dumps(x.ev, separators=(",", ":"))))
        out.flush()
        if late >= 2:
            break


if __name__ == "__main__":
    main()
