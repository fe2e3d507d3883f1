"""C14: Python signing and key generation with a failing randomness source, and with other calls before and at the same time."""
import json
import os
import random
import struct
import sys
import threading
from sim import cbuild, core, pyfalcon, ref
from sim.core import Outcome, digest
from sim.pyfalcon import Entropy, ROOM, SCHEMES, XOFS

ID = "C14"
QUICK, THOROUGH = 60, 1500
ISOLATE = 150
RULE = ("A run is a process with 1-3 threads that share key objects (Falcon, recovery, Epervier; ring degrees 8-512) and sign, verify and generate "
        "keys, 1-8 calls in all. Each call has its own stream of random bytes, given as argument or as the system's entropy; in a third of the "
        "calls the k-th request for random bytes raises one of 6 kinds of exceptions. A simulated scheduler decides, at every request for random "
        "bytes and (in part of the runs) every Python function call or line, which thread goes on. Every result is compared with the same call alone in a "
        "fresh process. Non-trivial: a fault fired, or at least two switches happened.")
MEASURE = "hash of the calls, the results and the switches taken"
TIME_UNIT = "requests for random bytes and traced function calls and lines"
REAL = ["pythonref: falcon.py, falcon_recovery.py, falcon_epervier.py, ntrugen.py, mkgauss.py, samplerz.py, ffsampling.py, fft.py, rng.py, encoding.py, the hash modules"]
STUB = ["polyntt (numpy stand-in)", "os.urandom and the randombytes argument (seeded streams that can fail)", "thread scheduling (one thread runs at a time)",
        "the Keccak permutation of keccak.py (compiled, after comparison on samples)"]
ASSUMPTIONS = ["a source of randomness either returns as many bytes as it was asked for or raises"]


class Custom(Exception):
    pass


class Stop(BaseException):
    pass


ERRORS = {"OSError": OSError, "ValueError": ValueError, "NotImplementedError": NotImplementedError, "MemoryError": MemoryError, "Custom": Custom, "KeyboardInterrupt": KeyboardInterrupt,
          "IndexError": IndexError, "ZeroDivisionError": ZeroDivisionError, "AssertionError": AssertionError, "StopIteration": StopIteration, "RuntimeError": RuntimeError}


def build(d):
    return {"keccakf": cbuild.keccakf(d)}


class Source:
    """The random bytes of one call."""

    def __init__(self, seed, fail, tick):
        self.r = random.Random("source %d" % seed)
        self.fail, self.tick = fail, tick
        self.calls, self.first, self.err = 0, b"", None
        self.buf, self.pos = b"", 0

    def __call__(self, n):
        self.tick()
        k = self.calls
        self.calls += 1
        if self.fail and k == self.fail[0]:
            self.err = ERRORS[self.fail[1]]("injected")
            raise self.err
        if self.err and self.fail[2]:
            # it stays broken: code that carries on must not get far
            raise self.err
        p = self.pos
        if p + n > len(self.buf):
            self.buf = self.buf[p:] + self.r.randbytes(65536 + n)
            p = 0
        self.pos = p + n
        b = self.buf[p:p + n]
        if k < 40:
            self.first += b
        return b


class Sim:
    """Threads that run one at a time; switches: [[event, thread]], or [[-site - 1, thread, occurrence]] for the places in the
    code, numbered in the order in which the run first gets to them."""

    def __init__(self, jobs, switches, trace):
        self.jobs, self.trace = jobs, trace
        self.switches = {x[0]: x[1] for x in switches if x[0] >= 0}
        self.at = {}
        for x in switches:
            if x[0] < 0:
                self.at.setdefault(-x[0] - 1, {})[x[2]] = x[1]
        self.sites, self.seen = {}, {}
        self.sems = [threading.Semaphore(0) for _ in jobs]
        self.live = [True] * len(jobs)
        self.cur, self.events, self.taken = 0, 0, 0
        self.done = threading.Semaphore(0)

    def tick(self, site=None):
        e = self.events
        self.events += 1
        t = self.switches.get(e)
        if site is not None and self.at:
            i = self.sites.setdefault(site, len(self.sites))
            if i in self.at:
                k = self.seen[i] = self.seen.get(i, -1) + 1
                t = self.at[i].get(k, t)
        if t is None:
            return
        t %= len(self.jobs)
        me = self.cur
        if t == me or not self.live[t]:
            return
        self.taken += 1
        self.cur = t
        self.sems[t].release()
        self.sems[me].acquire()

    def tracer(self, frame, event, arg):
        if "pythonref" in frame.f_code.co_filename:
            self.tick((frame.f_code.co_filename, frame.f_lineno))
            return self.tracer if self.trace == 2 else None

    def thread(self, i):
        self.sems[i].acquire()
        try:
            self.jobs[i](sys.settrace if self.trace else lambda f: None)
        finally:
            sys.settrace(None)
            self.live[i] = False
            nxt = [t for t in range(len(self.jobs)) if self.live[t]]
            if nxt:
                self.cur = nxt[0]
                self.sems[nxt[0]].release()
            else:
                self.done.release()

    def run(self):
        ts = [threading.Thread(target=self.thread, args=(i,), daemon=True) for i in range(len(self.jobs))]
        for t in ts:
            t.start()
        self.sems[0].release()
        self.done.acquire()
        for t in ts:
            t.join()


class World:
    def __init__(self, ctx):
        self.py = pyfalcon.Py(ctx["keccakf"])
        self.label = "system"
        self.memo = {}
        self.calls = {}
        self.keys = {}
        # a process that makes processes in which nothing has happened yet
        a, b = os.pipe()
        c, d = os.pipe()
        self.pid = os.fork()
        if self.pid == 0:
            try:
                os.close(b)
                os.close(c)
                self.server(a, d)
            finally:
                os._exit(0)
        os.close(a)
        os.close(d)
        self.w, self.r = os.fdopen(b, "wb"), os.fdopen(c, "rb")

    def close(self):
        try:
            self.w.close()
        except OSError:
            pass
        try:
            os.waitpid(self.pid, 0)
        except ChildProcessError:
            pass

    def server(self, a, d):
        r, w = os.fdopen(a, "rb"), os.fdopen(d, "wb")
        while True:
            h = r.read(4)
            if len(h) < 4:
                return
            req = json.loads(r.read(struct.unpack("<I", h)[0]))
            x, y = os.pipe()
            pid = os.fork()
            if pid == 0:
                os.close(x)
                Entropy.stream = random.Random("elsewhere").randbytes
                random.seed(99)
                self.label = "another system"
                src = Source(req["rs"], req["fail"], lambda: None)
                sys.stdout = self.py.devnull
                res = self.call(req, {}, src, lambda s: setattr(Entropy, "stream", s))
                out = json.dumps([self.show(res, src), src.calls]).encode()
                with os.fdopen(y, "wb") as f:
                    f.write(out)
                os._exit(0)
            os.close(y)
            with os.fdopen(x, "rb") as f:
                out = f.read()
            os.waitpid(pid, 0)
            w.write(struct.pack("<I", len(out)) + out)
            w.flush()

    def alone(self, o):
        """What the call does alone in a fresh process: ([kind, digest], number of requests), or None if the process dies."""
        k = json.dumps(o, sort_keys=True)
        if k not in self.memo:
            if len(self.memo) > 20000:
                self.memo.clear()
            b = k.encode()
            self.w.write(struct.pack("<I", len(b)) + b)
            self.w.flush()
            n = struct.unpack("<I", self.r.read(4))[0]
            out = self.r.read(n)
            self.memo[k] = json.loads(out) if out else None
        return self.memo[k]

    @staticmethod
    def show(res, src):
        kind, x = res
        if kind == "raised":
            return ["raised", "the injected error" if x is src.err else "%s: %s" % (type(x).__name__, x)]
        if kind == "signed":
            return ["signed", x.hex()]
        if kind == "key":
            return ["key", repr(x)]
        return [kind, x]

    def case(self, rng):
        n = rng.choice([8, 8, 8, 8, 8, 16, 16, 16, 16, 32, 32, 32, 32, 64, 64, 64, 128, 128, 256, 512])
        nt = rng.choice([1, 2, 2, 2, 3])
        objs = [[rng.choice(SCHEMES), m, rng.randrange(len(self.py.polys[str(m)]))]
                for m in [n if rng.random() < .8 else rng.choice([16, 64]) for _ in range(rng.choice([1, 1, 2]))]]
        tasks = []
        pool = [rng.randbytes(rng.choice([0, 1, 32, 100, 136, rng.randrange(400)])) for _ in range(2)]
        for _ in range(nt):
            ops = []
            for _ in range(rng.choice([1, 2, 3, 4]) if nt < 3 else rng.choice([1, 2])):
                scheme, sn, i = rng.choice(objs)
                # request, error, does the source stay broken
                fail = [0, "OSError", rng.random() < .25]
                x = rng.random()
                fail[0] = rng.choice([0, 1, 2, 3, rng.randrange(40), rng.randrange(sn * 30 + 10), rng.randrange(sn * 60 + 10)])
                fail[1] = rng.choice(sorted(ERRORS))
                o = {"op": "sign", "scheme": scheme, "n": sn, "i": i, "m": rng.choice(pool).hex(), "rs": rng.randrange(1 << 30) if rng.random() < .7 else rng.randrange(3),
                     "xof": rng.choice(XOFS[:2]), "via": rng.choice(["arg", "system", "system"]), "fail": fail if rng.random() < .35 else None}
                if x < .02:
                    gn = rng.choice([8, 16, 16, 32])
                    o.update(op="gen", n=gn, via=rng.choice(["arg", "system"]) if scheme == "falcon" else "system")
                    if o["fail"]:
                        o["fail"][0] = rng.choice([0, 1, 5, rng.randrange(3000), rng.randrange(100000), rng.randrange(300000)])
                elif x < .05:
                    gn = rng.choice([8, 16, 32])
                    o.update(op="ntru", n=gn, via="arg")
                    if o["fail"]:
                        o["fail"][0] = rng.choice([0, 1, 5, rng.randrange(3000), rng.randrange(30000)])
                elif x < .2:
                    o.update(op="verify", via="arg", fail=None, good=rng.random() < .7, rs=rng.randrange(8))
                ops.append(o)
            tasks.append(ops)
        if rng.random() < .5:
            # threads that do the same kind of thing
            for t in tasks:
                for o in t:
                    for k in ("scheme", "i", "n", "via", "xof"):
                        if o["op"] == tasks[0][0]["op"] == "sign":
                            o[k] = tasks[0][0][k]
        # preempt at requests for random bytes, at function calls, at lines
        trace = rng.choice([0, 1, 2, 2]) if n <= 16 else rng.choice([0, 0, 1]) if n <= 64 else 0
        span = n * nt * [60, 360, 2000][trace]
        sws = []
        if nt > 1:
            e = 0
            gap = rng.choice([3, 30, 300, 3000, 1 + span // 8])
            for _ in range(rng.choice([1, 2, 4, 10, 30])):
                e += 1 + rng.randrange(gap) if rng.random() < .8 else rng.randrange(span)
                sws.append([e, rng.randrange(nt)])
            if trace and rng.random() < .6:
                sws = sws[:rng.choice([0, 0, 2])]
                for _ in range(rng.choice([1, 2, 3, 6, 12])):
                    sws.append([-1 - rng.randrange([0, 60, 320][trace]), rng.randrange(nt), rng.choice([0, 0, 1, 2, rng.randrange(30)])])
        return {"tasks": tasks, "switches": sws, "trace": trace}

    def obj(self, o, objs):
        k = (o["scheme"], o["n"], o["i"])
        if k not in objs:
            objs[k] = self.py.new_sk(*k)
        return objs[k]

    def call(self, o, objs, src, system):
        """Make the call. objs: the key objects of this process; system(s): use s for the entropy of the system."""
        P = self.py
        n = o["n"]
        try:
            arg = {"randombytes": src} if o["via"] == "arg" else {}
            system(src if o["via"] == "system" else random.Random(self.label).randbytes)
            if o["op"] == "sign":
                s = self.obj(o, objs).sign(bytes.fromhex(o["m"]), xof=P.xof[o["xof"]], **arg)
                return "signed", bytes(s)
            if o["op"] == "verify":
                sig = bytearray.fromhex(o["sig"])
                v = self.vobj(o, objs).verify(bytes.fromhex(o["m"]), bytes(sig), xof=P.xof[o["xof"]])
                return "verified", bool(v)
            if o["op"] == "ntru":
                import ntrugen
                fs = ntrugen.ntru_gen(n, randombytes=src, logn=n.bit_length() - 1)
                return "key", [[int(x) for x in p] for p in fs]
            c = {"falcon": P.falcon.SecretKey, "rec": P.rec.RecoveryModeSecretKey, "epe": P.epe.EpervierSecretKey}[o["scheme"]]
            sk = c(n, **arg)
            return "key", [[int(x) for x in p] for p in (sk.f, sk.g, sk.F, sk.G, sk.h)]
        except BaseException as e:
            return "raised", e
        finally:
            system(None)

    def vobj(self, o, objs):
        k = ("pk", o["scheme"], o["n"], o["i"])
        if k not in objs:
            objs[k] = self.py.new_pk(o["scheme"], o["n"], o["i"])
        return objs[k]

    def complete(self, o):
        """A verify call gets its signature here: made by the signer alone."""
        if o["op"] != "verify":
            return o
        a = self.alone(dict(o, op="sign", via="system", fail=None, good=None))
        sig = a[0][1] if a and a[0][0] == "signed" else "00" * 100
        if not o["good"]:
            b = bytearray.fromhex(sig)
            b[50 % len(b)] ^= 1
            sig = b.hex()
        return dict(o, sig=sig)

    def judge(self, o, res, src):
        """What the result must be, whatever the code does alone."""
        kind, x = res
        n = o["n"]
        if src.err is not None:
            if kind != "raised" or x is not src.err:
                return ("an error of the random source is lost", "request %d raised %s, the caller saw %s" % (o["fail"][0], o["fail"][1], self.show(res, src)[:1] if kind != "raised" else "%s: %s" % (type(x).__name__, x)))
            return None
        if kind == "raised":
            return ("a call raises though its random source works", "%s: %s" % (type(x).__name__, x))
        if kind == "signed":
            if x[1:41] != src.first[:40] and x[1:41] not in src.first:
                return ("the salt is not the one that was drawn", x[1:41].hex())
            k = ("v", o["scheme"], n, o["i"], o["m"], o["xof"], x)
            if k not in self.calls:
                if len(self.calls) > 5000:
                    self.calls.clear()
                with self.py.quiet():
                    v = self.py.new_pk(o["scheme"], n, o["i"]).verify(bytes.fromhex(o["m"]), x, xof=self.py.xof[o["xof"]])
                self.calls[k] = v
            if self.calls[k] is not True:
                return ("a signature does not verify", "%s n=%d" % (o["scheme"], n))
        if kind == "key":
            f, g, F, G = x[:4]
            d = ref.mul(f, G) - ref.mul(g, F) if max(map(abs, F + G)) < 1 << 40 else None
            if any(len(p) != n for p in x) or d is None or d[0] != ref.Q or d[1:].any():
                return ("a generated key does not solve the NTRU equation", "n=%d" % n)
            if len(x) > 4 and ((ref.mul(x[4], f) - ref.np.array(g)) % ref.Q).any():
                return ("a generated public key does not belong to its private key", "n=%d" % n)
        if kind == "verified" and x != o["good"]:
            return ("a verification gives the wrong verdict", "returned %s" % x)
        return None

    def run(self, case):
        out = Outcome(nontrivial=False)
        tasks = [[self.complete(o) for o in ops] for ops in case["tasks"]]
        objs = {}
        results = [[] for _ in tasks]
        streams = [None] * len(tasks)

        def job(i):
            def go(trace):
                for o in tasks[i]:
                    src = Source(o["rs"], o["fail"], sim.tick)
                    # (key generation has some 100000 steps)
                    trace(sim.tracer if o["op"] in ("sign", "verify") else None)
                    r = self.call(o, objs, src, lambda s: streams.__setitem__(i, s))
                    trace(None)
                    results[i].append((r, src))
            return go
        sim = Sim([job(i) for i in range(len(tasks))], case["switches"], case["trace"])

        def system(n):
            s = streams[sim.cur]
            return s(n) if s else random.Random(n).randbytes(n)
        random.seed(1)
        with self.py.quiet(), Entropy.use(system):
            sim.run()
        log = []
        for i, ops in enumerate(tasks):
            for j, o in enumerate(ops):
                (res, src) = results[i][j] if j < len(results[i]) else (("raised", Stop("the thread died")), Source(0, None, None))
                what = "thread %d call %d (%s %s n=%d, random bytes by %s)" % (i, j, o["op"], o["scheme"], o["n"], "argument" if o["via"] == "arg" else "system")
                show = self.show(res, src)
                log.append((i, j, show, src.calls))
                core.add(out.counts, {"%s %s" % (o["op"], show[0]): 1})
                if src.err is not None:
                    core.add(out.faults, {"source raises " + o["fail"][1]: 1})
                    out.nontrivial = True
                if out.bad:
                    continue
                out.bad = self.judge(o, res, src)
                if out.bad:
                    out.bad = (out.bad[0], what + ": " + out.bad[1])
                    continue
                want = self.alone(o)
                if want is None or want[0] != show or want[1] != src.calls:
                    out.bad = ("a call gives another result than alone in a fresh process",
                               what + ": %s after %d requests, alone %s after %s" % (str(show)[:100], src.calls, str(want and want[0])[:100], want and want[1]))
        if sim.taken:
            core.add(out.faults, {"preemption": sim.taken})
        out.nontrivial = out.nontrivial or sim.taken > 1
        out.simtime = sim.events
        out.digest = digest(log, sim.taken, out.bad)
        out.key = digest(log, sim.taken)
        return out

    def shrink(self, c):
        T = c["tasks"]
        if c["switches"]:
            for s in core.shrink_list(c["switches"]):
                yield dict(c, switches=s)
        for t in range(len(T)):
            for ops in core.shrink_list(T[t]):
                if ops or len(T) > 1:
                    yield dict(c, tasks=T[:t] + ([ops] if ops else []) + T[t + 1:])
        if c["trace"]:
            yield dict(c, trace=c["trace"] - 1)
        for t in range(len(T)):
            for j, o in enumerate(T[t]):
                alt = [dict(o, fail=None)] if o["fail"] else []
                if o["fail"] and o["fail"][0] > 1:
                    alt += [dict(o, fail=[k] + o["fail"][1:]) for k in (0, 1, 2, o["fail"][0] // 2)]
                if o["m"]:
                    alt.append(dict(o, m=""))
                for a in alt:
                    yield dict(c, tasks=T[:t] + [T[t][:j] + [a] + T[t][j + 1:]] + T[t + 1:])
