"""C03: the shared random source of the C library is one sequential AES-256-CTR-DRBG."""
from Crypto.Cipher import AES
from sim import core, cbuild
from sim.csim import Engine, op
from sim.core import Outcome, digest
from sim.huge import Huge, length
from checks.c01 import load_keys

ID = "C03"
QUICK, THOROUGH = 40, 1200
RULE = ("A run is a process that boots (unseeded, or seeded at some point by one of the tasks), with 1-4 tasks that request random bytes "
        "directly (0 to 70000 bytes, at block boundaries and around them), through signing and through key generation, and that may seed "
        "the source, also so that its 128-bit counter is about to carry or wrap; preemptions at drawn events inside the source; failing "
        "entropy of the system for the first k requests. Rarely, one request of 2 or 4 GiB and a little. Non-trivial: a task was preempted inside a request, or the entropy failed, or "
        "the counter carried over more than one byte.")
MEASURE = "hash of the requests, all context switches and the entropy failures"
TIME_UNIT = "events (function entries, accesses to shared memory, lock operations)"
REAL = ["falcon/nistfalcon/src/katrng.c", "key generation and signing of the same directory"]
STUB = ["thread scheduler", "AES (in the requests of 2 GiB and more)", "getentropy, getrandom and /dev/urandom (a seeded stream with failures)"]
ASSUMPTIONS = ["AES of pycryptodome is right (reference)", "preemption happens only at events", "sequentially consistent memory"]
M128 = (1 << 128) - 1


class Drbg:
    """NIST SP 800-90A CTR_DRBG, AES-256, no derivation function, as the KAT generator uses it. Immutable states (key, v)."""
    memo = {}

    @staticmethod
    def blocks(key, v, n):
        e = AES.new(key, AES.MODE_ECB)
        return e.encrypt(b"".join(((v + i) & M128).to_bytes(16, "big") for i in range(1, n + 1)))

    @staticmethod
    def update(data, key, v):
        t = Drbg.blocks(key, v, 3)
        if data is not None:
            t = bytes(a ^ b for a, b in zip(t, data))
        return t[:32], int.from_bytes(t[32:48], "big")

    @staticmethod
    def init(entropy, pers):
        s = entropy if pers is None else bytes(a ^ b for a, b in zip(entropy, pers))
        return Drbg.update(s, b"\0" * 32, 0)

    @staticmethod
    def draw(state, n):
        k = (state, n)
        if k not in Drbg.memo:
            if len(Drbg.memo) > 300:
                Drbg.memo.clear()
            key, v = state
            nb = (n + 15) // 16
            Drbg.memo[k] = Drbg.blocks(key, v, nb)[:n], Drbg.update(None, key, (v + nb) & M128)
        return Drbg.memo[k]


def steer(key, v):
    """The entropy input that puts the source in this state."""
    t = Drbg.blocks(b"\0" * 32, 0, 3)
    return bytes(a ^ b for a, b in zip(t, key + v.to_bytes(16, "big")))


def linearise(hist, seeds, limit=200000):
    """hist: [(kind, inv, resp, x)], kind draw: x = (length, bytes), fail: x = None, init: x = state.
    Is there a sequential order that respects real time and gives these bytes? Unseeded, the first draw takes one of seeds."""
    hist = sorted(hist, key=lambda h: h[1])
    n = len(hist)
    seen = set()
    stack = [(0, None)]
    full = (1 << n) - 1
    while stack:
        done, st = stack.pop()
        if done == full:
            return True
        if (done, st) in seen:
            continue
        seen.add((done, st))
        if len(seen) > limit:
            return True
        # those that nothing unfinished precedes
        first_resp = min(hist[i][2] for i in range(n) if not done >> i & 1)
        for i in range(n):
            if done >> i & 1 or hist[i][1] > first_resp:
                continue
            kind, _, _, x = hist[i]
            nd = done | 1 << i
            if kind == "init":
                stack.append((nd, x))
            elif kind == "fail":
                if st is None:
                    stack.append((nd, None))
            else:
                for s in ([st] if st is not None else seeds):
                    out, s2 = Drbg.draw(s, x[0])
                    if out == x[1]:
                        stack.append((nd, s2))
                if st is None and x[0] == 0:
                    stack.append((nd, None))
    return False


LENS = [0, 1, 2, 8, 15, 16, 17, 31, 32, 33, 40, 47, 48, 49, 64, 100, 255, 256, 257, 1000, 4095, 4096, 4097, 5000]


class World:
    def __init__(self, ctx):
        self.eng = Engine(ctx["exe"])
        self.huge = Huge(ctx["dir"])
        self.keys = load_keys()
        self.traces = {}
        self.plain = None

    def close(self):
        self.eng.close()

    def sites(self, o, seeded):
        k = (o["kind"], o["n"] if o["n"] is None else min(o["n"], 64), seeded)
        if k not in self.traces:
            pre = [op("ri", a=b"\1" * 48)] if seeded else []
            # (they are kept, and must not depend on which call was the first one)
            q = dict(o, n=min(o["n"], 64)) if o["n"] is not None else op("ri", a=b"\2" * 48) if o["kind"] == "ri" else dict(o, a=o["a"] and "00" * 20)
            R = self.eng.run([pre + [q]], trace=True, os=5)
            self.traces[k] = [s for s in R.sites if s[0]] or R.sites
        return self.traces[k]

    def seeds_itself(self):
        """Is the lazy seeding of this tree the plain one: the state after the update with 48 bytes of entropy?"""
        if self.plain is None:
            R = self.eng.run([[op("rb", rs="R", n=48)]], os=99)
            d = R.draws[0] if R.draws else None
            self.plain = bool(d and d[2] == 0 and any(Drbg.draw(Drbg.init(e, None), 48)[0] == d[7] for e in R.os if len(e) == 48))
        return self.plain

    def case(self, rng):
        if rng.random() < 1 / 1200:
            return {"huge": length(rng)}
        nt = rng.choice([1, 2, 2, 2, 3, 4])
        tasks = []
        mode = rng.choice(["unseeded", "unseeded", "seeded", "mixed"])

        def ri():
            r = rng.random()
            if r < .7:
                v = rng.choice([M128 - rng.randrange(5), M128 - rng.randrange(400), (rng.getrandbits(128) | ((1 << rng.choice([8, 16, 24, 32, 64, 120])) - 1)) - rng.randrange(4), M128 - rng.randrange(70000)])
                e = steer(rng.randbytes(32), v)
            else:
                e = rng.randbytes(48)
            p = rng.randbytes(48) if rng.random() < .2 else None
            if p is not None:
                e = bytes(a ^ b for a, b in zip(e, p))
            return op("ri", a=e, b=p)
        for t in range(nt):
            ops = []
            for _ in range(rng.choice([1, 2, 2, 3, 5])):
                r = rng.random()
                if r < .88:
                    ops.append(op("rb", rs="R", n=rng.choice(LENS) if rng.random() < .9 else rng.randrange(3000 if nt > 1 else 70000)))
                elif r < .96:
                    ops.append(op(rng.choice(["sg_n", "sg_z", "sg_e"]), rs="R", a=rng.randbytes(rng.randrange(60)), b=self.keys[0]["sk"]))
                elif r < .97:
                    ops.append(op("kp_n", rs="R"))
                elif mode == "mixed":
                    ops.append(ri())
            if mode == "mixed" and rng.random() < .4:
                ops.insert(rng.randrange(len(ops) + 1), ri())
            tasks.append(ops or [op("rb", rs="R", n=16)])
        if mode == "seeded":
            tasks[0].insert(0, ri())
        sws = []
        if nt > 1:
            for _ in range(rng.choice([1, 1, 2, 3, 4, 6])):
                t = rng.randrange(nt)
                j = rng.randrange(len(tasks[t]))
                s = self.sites(tasks[t][j], rng.random() < .5)
                if s:
                    sws.append([t, j, max(1, rng.choice(rng.choice(s)[2]) + rng.choice([0, 0, 0, 1, -1])), rng.choice([x for x in range(nt) if x != t])])
            if mode == "seeded":
                # seeding comes first, in real time
                sws = [s for s in sws if s[:2] != [0, 0]]
        return {"tasks": tasks, "sws": sws, "first": 0 if mode == "seeded" else rng.randrange(nt), "os": rng.getrandbits(60),
                "osuntil": rng.choice([1, 1, 2, 3, 5]) if mode != "seeded" and rng.random() < .3 else 0}

    def run_huge(self, c):
        out = Outcome(digest=digest(c), key=digest(c), nontrivial=True)
        bad, tried = self.huge.run(False, ["rb", c["huge"]])
        out.counts["requests of 2 GiB and more" + ("" if tried else ", not decided")] = 1
        if bad:
            out.bad = ("a long request fails", "%d bytes: %s" % (c["huge"], bad))
        return out

    def run(self, c):
        if "huge" in c:
            return self.run_huge(c)
        R = self.eng.run(c["tasks"], sws=c["sws"], first=c["first"], os=c["os"], osuntil=c["osuntil"], limit=10 ** 9)
        out = Outcome(digest=digest(sorted((k, r.observable()) for k, r in R.res.items()), R.draws, R.sw, R.bad),
                      simtime=R.stat["events"] if R.stat else 0)
        out.key = digest(R.sw, [[(o["kind"], o["n"], o["a"]) for o in t] for t in c["tasks"]], c["osuntil"])
        out.faults = {"preemption": len(R.sw)}
        if R.stat and R.stat["os_failed"]:
            out.faults["entropy of the system fails"] = R.stat["os_failed"]
        out.nontrivial = bool(R.sw) or bool(R.stat and R.stat["os_failed"])
        if R.bad:
            out.bad = ("a request does not return", R.bad)
            return out
        hist, unseeded_draws = [], []
        inits = []
        for t, ops in enumerate(c["tasks"]):
            for j, o in enumerate(ops):
                r = R.res.get((t, j))
                if o["kind"] == "ri":
                    s = Drbg.init(bytes.fromhex(o["a"]), bytes.fromhex(o["b"]) if o["b"] is not None else None)
                    if s[1] & 0xFFFF > 0xFFF0:
                        out.nontrivial = True
                        out.counts["counter about to carry"] = out.counts.get("counter about to carry", 0) + 1
                    hist.append(("init", r.inv, r.resp, s))
                    inits.append(r)
                elif o["kind"] == "rb":
                    out.counts["requests"] = out.counts.get("requests", 0) + 1
                    if not r.guard:
                        out.bad = ("bytes are written outside the caller's buffer", "task %d request %d of %d bytes" % (t, j, o["n"]))
                        return out
                    if r.ret != 0 and not r.o1same:
                        out.bad = ("a failed request hands out bytes", "task %d request %d of %d bytes: status %d" % (t, j, o["n"], r.ret))
                        return out
        for t, j, ret, osf, n, inv, resp, b in R.draws:
            if ret != 0:
                if osf == 0:
                    out.bad = ("a request fails although no entropy source did", "task %d call %d: status %d" % (t, j, ret))
                    return out
                hist.append(("fail", inv, resp, None))
            else:
                hist.append(("draw", inv, resp, (n, b)))
        if not hist or any(len(b) < n for _, _, ret, _, n, _, _, b in R.draws if ret == 0):
            return out
        always_seeded = c["tasks"] and inits and all(min(r.resp for r in inits) < d[5] for d in R.draws)
        if not always_seeded and not self.seeds_itself():
            # another way of seeding: only fresh bytes can be asked for
            return self.fresh(c, R, out)
        if c["osuntil"] and not R.os and not inits and any(h[0] == "draw" and h[3][0] for h in hist):
            out.bad = ("bytes come out although the source was never seeded", "the system gave no entropy")
            return out
        seeds = [Drbg.init(e, None) for e in R.os if len(e) == 48]
        if not linearise(hist, seeds):
            out.bad = ("the bytes are not those of one sequential generator",
                       "no sequential order of the %d requests gives the observed bytes: %s" % (len(hist), ["%s %d-%d %s" % (k, a, b, (x[0], x[1][:8].hex()) if k == "draw" else "") for k, a, b, x in sorted(hist, key=lambda h: h[1])]))
        return out

    def fresh(self, c, R, out):
        out.counts["runs judged by freshness alone"] = 1
        R2 = self.eng.run(c["tasks"], sws=c["sws"], first=c["first"], os=c["os"] ^ 0x55AA, limit=10 ** 9)
        if any(o["kind"] == "ri" for t in c["tasks"] for o in t):
            return out
        a = [d[7][:16] for d in R.draws if d[2] == 0 and d[4] >= 16]
        b = [d[7][:16] for d in R2.draws if d[2] == 0 and d[4] >= 16]
        if len(set(a + b)) < len(a) + len(b):
            out.bad = ("bytes are handed out twice", "two requests of 16 or more bytes, in one or in two processes with different entropy, start equal")
        return out

    def shrink(self, c):
        if "huge" in c:
            return
        for sws in core.shrink_list(c["sws"]):
            yield dict(c, sws=sws)
        if c["osuntil"]:
            yield dict(c, osuntil=0)
        nt = len(c["tasks"])
        for t in range(nt):
            if nt > 1:
                m = lambda x: x - (x > t)
                yield dict(c, tasks=c["tasks"][:t] + c["tasks"][t + 1:], first=m(c["first"]) % (nt - 1),
                           sws=[[m(a), o, e, m(b)] for a, o, e, b in c["sws"] if a != t and b != t])
            for j in range(len(c["tasks"][t])):
                if len(c["tasks"][t]) > 1:
                    yield dict(c, tasks=c["tasks"][:t] + [c["tasks"][t][:j] + c["tasks"][t][j + 1:]] + c["tasks"][t + 1:],
                               sws=[[a, o - (a == t and o > j), e, b] for a, o, e, b in c["sws"] if not (a == t and o == j)])
        for t in range(nt):
            for j, o in enumerate(c["tasks"][t]):
                if o["kind"] == "rb":
                    for n in (16, 17, 48, o["n"] // 2, o["n"] - 1):
                        if 0 < n < o["n"]:
                            ts = [list(x) for x in c["tasks"]]
                            ts[t][j] = dict(o, n=n)
                            yield dict(c, tasks=ts)


def build(d):
    return {"exe": cbuild.csim(d, "sched", False), "dir": d}
