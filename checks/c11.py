"""C11: processes that restart or fork never repeat keys or nonces."""
import hashlib
import json
import os
import shutil
import subprocess
from sim import core, cbuild, csim, gosim
from sim.core import Outcome, digest
from checks.c01 import load_keys
from checks import c09

ID = "C11"
QUICK, THOROUGH = 50, 1200
RULE = ("A run is a machine that starts a program 2-6 times: a drawn sequence of key generations, signings (of the same messages with the same keys) "
        "and raw requests, through the C library (both builds, one or three threads), the Go binding or the JavaScript build, which never seeds the random source. "
        "Every start is a process of its own and crashes after a drawn number of calls, and begins anew or goes on where it stopped. The entropy of the system "
        "is simulated: other bytes in every start, but up to 12 adjacent ones of 48 equal in all; it may fail for the first requests; clocks and "
        "process numbers never differ. Or the source itself is simulated, and in 2-5 starts about half of the bytes that one call draws are the same, or all but one (16 of them must make a difference). Or the program forks, at any place and depth, and parents and children go on with the same or other calls. Over the whole history no public key, private key or nonce may occur twice. Non-trivial: at least two starts returned a key or a signature.")
MEASURE = "hash of the program, the starts and what they returned"
TIME_UNIT = "calls"
REAL = ["all C sources of falcon/nistfalcon/src with their own random source", "falcon/falcon.go (instrumented copy)", "falcon/falcon.js in node"]
STUB = ["the system's entropy (getentropy, getrandom, /dev/urandom, crypto.getRandomValues): a stream per start", "clocks: constant; process numbers: constant, another one for every forked process", "thread scheduler"]
ASSUMPTIONS = ["the application does not seed the source itself", "128 bits of entropy that differ between two starts are enough, and so is a random half of the bytes that a call draws"]


def known_items():
    """What falcon/falcon.js returns in every process (see KNOWN_FINDINGS.txt): keys and nonces from a generator whose state is zero."""
    with open(cbuild.VERIF + "/KNOWN_FINDINGS.txt") as f:
        if not any(l.startswith("finding: property=C11 falconjs-zero-state ") for l in f):
            return set()
    with open(cbuild.VERIF + "/fixtures/falconjs_zero.json") as f:
        return set(json.load(f))


def build(d):
    ctx = {k: cbuild.csim(d, k.split("_")[0], k.endswith("_eth")) for k in ("plain", "plain_eth", "sched", "sched_eth")}
    ctx["go"] = gosim.build(d)
    return ctx


class World:
    def __init__(self, ctx):
        self.exe = ctx
        self.keys = load_keys()
        self.known = known_items()
        self.node = shutil.which("node") if os.path.exists(cbuild.REPO + "/falcon/falcon.js") else None

    def close(self):
        pass

    def case(self, rng):
        x = rng.random()
        if x < .12:
            return self.family(rng)
        if x < .4:
            v = rng.choice("nnzze")
            c = {"kind": "near", "eth": rng.random() < .5, "op": ["kp" if v != "e" and rng.random() < .6 else "sg", v, rng.randbytes(rng.choice([0, 1, 30, 200])).hex(), rng.randrange(4)]}
            if x < .26:
                return dict(c, mix=rng.getrandbits(60) | 1, rs=[rng.getrandbits(60) for _ in range(rng.choice([2, 2, 2, 3, 5]))])
            return dict(c, kind="one", rs=rng.getrandbits(60), order=rng.getrandbits(40))
        kind = rng.choice(["plain", "plain", "plain_eth", "sched", "sched_eth", "go", "go"])
        if rng.random() < .02 and self.node:
            kind = "js"
        nt = 1 if kind == "js" else rng.choice([2, 3]) if kind.startswith("sched") else rng.choice([1, 1, 1, 3]) if kind == "go" else 1
        long = rng.random() < .1 and kind.startswith("plain")
        prog = []
        for t in range(nt):
            ops = []
            for _ in range(rng.choice([8, 30]) if long else rng.choice([1, 1, 2, 3])):
                x = rng.random()
                m = rng.choice(["", "00", rng.randbytes(rng.randrange(64)).hex()])
                if x < (.05 if long else .35):
                    ops.append(["kp", "n" if kind in ("js", "go") else rng.choice("nz")])
                elif x < .9 or kind in ("js", "go"):
                    ops.append(["sg", "n" if kind in ("js", "go") else rng.choice("nze"), m, rng.randrange(4)])
                else:
                    ops.append(["rb", rng.choice([0, 1, 16, 48, 100, 5000])])
            prog.append(ops)
        boots = []
        for _ in range(rng.choice([2, 2, 3, 4, 6])):
            boots.append({"os": rng.getrandbits(60), "until": rng.choice([1, 1, 2, 4]) if rng.random() < .2 else 0,
                          "n": [rng.choice([len(p), len(p), rng.randrange(len(p) + 1)]) for p in prog], "on": rng.random() < .25,
                          "chaos": [rng.getrandbits(40), rng.choice([0, 1 << 20, 1 << 25, 1 << 28]) if kind != "go" else rng.choice([0, 100, 400])]})
        return {"kind": kind, "prog": prog, "boots": boots, "fix": [rng.randrange(48), rng.choice([4, 8, 12])] if rng.random() < .3 else None}

    def boot(self, c, b, prog):
        """-> [(kind, value)]"""
        fix = c["fix"] or [0, 0]
        kind = c["kind"]
        items = []
        if kind == "js":
            plan = {"entropy": str(b["os"]), "fix": c["fix"], "ops": [{"kind": o[0]} if o[0] == "kp" else {"kind": "sg", "m": o[2], "sk": self.keys[o[3]]["sk"].hex()} for o in prog[0]]}
            r = subprocess.run([self.node, cbuild.VERIF + "/csim/falconjs.js", cbuild.REPO + "/falcon/falcon.js"], input=json.dumps(plan),
                               stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, timeout=60)
            if r.returncode == 0 and r.stdout.strip():
                for x in json.loads(r.stdout.strip().split("\n")[-1]):
                    if x["ret"] == 0:
                        items += [("nonce", x["sm"][4:84])] if "sm" in x else [("public key", x["pk"]), ("private key", x["sk"])]
            return items, 0
        if kind == "go":
            pool = [{"Hex": k["sk"].hex(), "Spare": 0} for k in self.keys[:4]]
            tasks = []
            for ops in prog:
                L = []
                for o in ops:
                    if o[0] == "kp":
                        L.append(c09.op("kp", 0))
                    elif o[0] == "sg":
                        pool.append({"Hex": o[2], "Spare": 0})
                        L.append(c09.op("sg", 0, "p%d" % (len(pool) - 1), "p%d" % o[3]))
                tasks.append(L)
            R = gosim.execute(self.exe["go"], {"Pool": pool, "Tasks": tasks, "Chaos": [b["chaos"][0], b["chaos"][1], 0],
                                               "Boot": {"Entropy": b["os"], "Fail": list(range(b["until"])), "Fix": fix}})
            for r in R["Res"] or []:
                if r["Failed"] or r["Panic"] or r["Skipped"]:
                    continue
                if r["PK"]:
                    items += [("public key", r["PK"]), ("private key", r["SK"])]
                elif r["SM"]:
                    items.append(("nonce", r["SM"][4:84]))
            return items, R["OSFired"]
        eng = csim.Engine(self.exe[kind], env=dict(os.environ, CSIM_OS="%d:%d:%d:%d" % (b["os"], fix[0], fix[1], b["until"])))
        try:
            tasks = []
            for ops in prog:
                L = []
                for o in ops:
                    if o[0] == "kp":
                        L.append(csim.op("kp_" + o[1], rs="R"))
                    elif o[0] == "sg":
                        L.append(csim.op("sg_" + o[1], rs="R", a=bytes.fromhex(o[2]), b=self.keys[o[3]]["sk"]))
                    else:
                        L.append(csim.op("rb", rs="R", n=o[1]))
                tasks.append(L)
            R = eng.run(tasks, chaos=b["chaos"] if kind.startswith("sched") else None, limit=10 ** 9)
        finally:
            eng.close()
        for (t, j), r in sorted(R.res.items()):
            o = prog[t][j]
            if r.ret != 0:
                continue
            if o[0] == "kp":
                items += [("public key", r.o1.hex()), ("private key", r.o2.hex())]
            elif o[0] == "sg":
                items.append(("nonce", r.o1[2:42].hex()))
        return items, R.stat["os_failed"] if R.stat else 0

    def family(self, rng):
        """A program that forks."""
        def op():
            x = rng.random()
            m = rng.choice(["", "00", rng.randbytes(rng.randrange(64)).hex()])
            return ["kp", rng.choice("nz")] if x < .15 else ["sg", rng.choice("nze"), m, rng.randrange(4)] if x < .9 else ["rb", rng.choice([0, 1, 16, 48, 100, 5000])]
        ops, depth = [], 0
        for _ in range(rng.choice([4, 8, 16])):
            x = rng.random()
            if x < .25 and depth < 4:
                ops.append(["fork"])
                depth += 1
            elif x < .45 and depth:
                ops.append(["exit"])
                depth -= 1
            else:
                ops.append(op())
        one = op()
        if one[0] != "rb" and rng.random() < .6:
            # everyone does the same
            ops = [one if o[0] == "sg" else o for o in ops]
        return {"kind": "fork", "eth": rng.random() < .5, "ops": ops, "boots": [[rng.getrandbits(60), rng.choice([0, 0, 0, 1, 2])] for _ in range(rng.choice([1, 1, 2]))],
                "fix": [rng.randrange(48), rng.choice([4, 8, 12])] if rng.random() < .3 else [0, 0]}

    def forks(self, c):
        out = Outcome()
        seen, log, returned = {}, [], set()
        for bi, (seed, until) in enumerate(c["boots"]):
            eng = csim.Engine(self.exe["plain_eth" if c["eth"] else "plain"], env=dict(os.environ, CSIM_OS="%d:%d:%d:%d" % (seed, c["fix"][0], c["fix"][1], until)))
            eng.start()
            stack, n = [0], 0
            try:
                for o in c["ops"]:
                    if o[0] == "fork":
                        n += 1
                        eng.tell("fork %d" % n)
                        stack.append(n)
                        core.add(out.faults, {"fork": 1})
                        continue
                    if o[0] == "exit":
                        if len(stack) > 1:
                            eng.tell("quit")
                            stack.pop()
                            core.add(out.faults, {"exit of a forked process": 1})
                        continue
                    out.simtime += 1
                    r = eng.exec(csim.op("kp_" + o[1], rs="R") if o[0] == "kp" else csim.op("rb", rs="R", n=o[1]) if o[0] == "rb" else
                                 csim.op("sg_" + o[1], rs="R", a=bytes.fromhex(o[2]), b=self.keys[o[3]]["sk"]))
                    log.append((bi, stack[-1], r.ret))
                    if r.ret or o[0] == "rb":
                        continue
                    for k, v in [("public key", r.o1.hex()), ("private key", r.o2.hex())] if o[0] == "kp" else [("nonce", r.o1[2:42].hex())]:
                        out.counts[k + "s"] = out.counts.get(k + "s", 0) + 1
                        returned.add((bi, stack[-1]))
                        log.append((k, v))
                        if (k, v) in seen:
                            out.bad = out.bad or ("a %s occurs twice" % k, "%s %s...: by process %d of start %d and process %d of start %d" % (k, v[:40], seen[k, v][1], seen[k, v][0], stack[-1], bi))
                        seen.setdefault((k, v), (bi, stack[-1]))
            except csim.Dead:
                core.add(out.faults, {"crash": 1})
            finally:
                for _ in stack[1:]:
                    eng.tell("quit")
                eng.close()
        out.nontrivial = len(returned) > 1
        out.digest, out.key = digest(log), digest([c, log])
        return out

    def call(self, eng, c, w):
        """-> [(kind, value)] of the one call, with this random stream."""
        o = c["op"]
        r = eng.exec(csim.op("kp_" + o[1], rs=w) if o[0] == "kp" else csim.op("sg_" + o[1], rs=w, a=bytes.fromhex(o[2]), b=self.keys[o[3]]["sk"]))
        if r.ret:
            return []
        return [("public key", r.o1.hex()), ("private key", r.o2.hex())] if o[0] == "kp" else [("nonce", r.o1[2:42].hex())]

    def one(self, c):
        """Starts that differ in one of the bytes that one call draws: where fewer than 16 bytes matter, starts repeat each other's results."""
        out = Outcome(nontrivial=True)
        order = list(range(128))
        core.random.Random(c["order"]).shuffle(order)
        eng = csim.Engine(self.exe["plain_eth" if c["eth"] else "plain"])
        n, log, first = 0, [], []
        try:
            first = self.call(eng, c, str(c["rs"]))
            matter = {k: 0 for k, _ in first}
            for i in order:
                if min(matter.values(), default=16) >= 16:
                    break
                r = self.call(eng, c, "%dx%d" % (c["rs"], i))
                n += 1
                for (k, v), (_, w) in zip(first, r):
                    matter[k] += v != w
                log.append(r)
        except csim.Dead:
            first = []
        finally:
            eng.close()
        for k, _ in first:
            if matter[k] < 16:
                out.bad = out.bad or ("a %s depends on fewer than 16 random bytes" % k, "%s_%s: of the first 128 bytes drawn, %d make a difference" % (*c["op"][:2], matter[k]))
        out.simtime = out.faults["all random bytes but one repeat"] = out.counts["starts, one"] = n
        out.digest, out.key = digest(log), digest(c)
        return out

    def near(self, c):
        """Starts in which about half of the bytes that one call draws are the same."""
        out = Outcome(nontrivial=True)
        o, seen, log = c["op"], {}, []
        for i, rs in enumerate(c["rs"]):
            eng = csim.Engine(self.exe["plain_eth" if c["eth"] else "plain"])
            try:
                items = self.call(eng, c, "%dm%d" % (rs, c["mix"]))
            except csim.Dead:
                continue
            finally:
                eng.close()
            for k, v in items:
                out.counts[k + "s"] = out.counts.get(k + "s", 0) + 1
                log.append((k, v))
                if (k, v) in seen:
                    out.bad = out.bad or ("a %s occurs twice" % k, "%s_%s: in starts %d and %d, although half of the random bytes differ" % (o[0], o[1], seen[k, v], i))
                seen.setdefault((k, v), i)
        out.faults["half of the random bytes repeat"] = out.simtime = len(c["rs"])
        out.counts["starts, near"] = len(c["rs"])
        out.digest, out.key = digest(log), digest(c)
        return out

    def run(self, c):
        if c["kind"] == "fork":
            return self.forks(c)
        if c["kind"] == "near":
            return self.near(c)
        if c["kind"] == "one":
            return self.one(c)
        out = Outcome(nontrivial=False)
        seen, log = {}, []
        at = [0] * len(c["prog"])
        good = 0
        for i, b in enumerate(c["boots"]):
            if not b["on"]:
                at = [0] * len(at)
            prog = [p[a:a + n] for p, a, n in zip(c["prog"], at, b["n"])]
            at = [a + n if a + n < len(p) else 0 for p, a, n in zip(c["prog"], at, b["n"])]
            try:
                items, failed = self.boot(c, b, prog)
            except (csim.Dead, gosim.Crash):
                # (not what this property is about)
                items, failed = [], 0
            out.simtime += sum(map(len, prog))
            if failed:
                out.faults["entropy of the system fails"] = out.faults.get("entropy of the system fails", 0) + failed
            if i:
                out.faults["crash and restart"] = out.faults.get("crash and restart", 0) + 1
            if c["fix"]:
                out.faults["bytes of entropy repeat"] = out.faults.get("bytes of entropy repeat", 0) + 1
            good += bool(items)
            for j, (k, v) in enumerate(items):
                out.counts[k + "s"] = out.counts.get(k + "s", 0) + 1
                h = hashlib.sha256(bytes.fromhex(v)).hexdigest()
                log.append(h)
                if (k, v) in seen:
                    if c["kind"] == "js" and h in self.known:
                        out.known = [("falconjs-zero-state", "falcon/falcon.js, built before its random source was seeded by the system, returns the same keys and nonces in every process")]
                        continue
                    out.bad = out.bad or ("a %s occurs twice" % k, "%s: in starts %d and %d" % (c["kind"], seen[k, v], i))
                seen.setdefault((k, v), i)
        out.nontrivial = good >= 2
        out.counts["starts, " + c["kind"].split("_")[0]] = len(c["boots"])
        out.digest = digest(log)
        out.key = digest(c["prog"], [(b["n"], b["until"], b["on"]) for b in c["boots"]], log)
        return out

    def shrink(self, c):
        if c["kind"] == "one":
            return
        if c["kind"] == "near":
            for rs in core.shrink_list(c["rs"], 2):
                yield dict(c, rs=rs)
            return
        if c["kind"] == "fork":
            for bs in core.shrink_list(c["boots"], 1):
                yield dict(c, boots=bs)
            for ops in core.shrink_list(c["ops"], 1):
                yield dict(c, ops=ops)
            return
        for bs in core.shrink_list(c["boots"], 2):
            yield dict(c, boots=bs)
        for t in range(len(c["prog"])):
            for p in core.shrink_list(c["prog"][t], 0 if t else 1):
                yield dict(c, prog=c["prog"][:t] + [p] + c["prog"][t + 1:])
        for j, b in enumerate(c["boots"]):
            for k, v in (("until", 0), ("on", False), ("chaos", [0, 0])):
                if b[k] != v:
                    yield dict(c, boots=c["boots"][:j] + [dict(b, **{k: v})] + c["boots"][j + 1:])
        if c["fix"]:
            yield dict(c, fix=None)
