"""C09: goroutines that use the Go binding at the same time do not disturb each other."""
import json
from sim import core, gosim
from sim.core import Outcome, digest
from checks.c01 import load_keys

ID = "C09"
QUICK, THOROUGH = 60, 1500
MINIMISE = 60
RULE = ("A run is a process with 1-4 goroutines that make 1-6 calls each (key generation, signing, verification; messages, keys and signatures are "
        "shared slices with spare capacity, or results of earlier calls; failing randomness; garbage keys). The simulator, which has a yield point before every "
        "statement of the binding, in the functions of package sync and at every request for random bytes inside C, decides who goes on: up to 8 directed or many random "
        "switches, and collections of garbage (freed memory is overwritten). Callers overwrite slices they got, and fill buffers anew that they passed. Every call is compared with "
        "the same call alone in a new process; results and inputs are compared again at the end. Non-trivial: a switch, a collection or an overwritten result.")
MEASURE = "hash of the calls and the switches taken"
TIME_UNIT = "yield points passed"
REAL = ["falcon/falcon.go (instrumented copy)", "all C sources of falcon/nistfalcon/src", "the Go runtime and its garbage collector"]
STUB = ["randombytes (a stream per call with failures)", "package sync (waiting goroutines give up their turn)", "goroutine scheduling (one runs at a time)"]
ASSUMPTIONS = ["a goroutine loses its turn between statements, in package sync and at requests for random bytes"]


def build(d):
    return {"exe": gosim.build(d)}


def op(kind, rs=1, a="nil", b="nil", c="nil", fail=None):
    return {"Kind": kind, "RS": rs, "A": a, "B": b, "C": c, "Fail": fail or []}


def visible(r):
    return (r["Panic"], r["Failed"], r["Err"], r["Verdict"], r["PK"], r["SK"], r["SM"])


class World:
    def __init__(self, ctx):
        self.exe = ctx["exe"]
        self.keys = load_keys()
        self.base = {}

    def close(self):
        pass

    def alone(self, kind, rs, fail, args):
        """The result of this call as the only one of a process."""
        k = (kind, rs, tuple(fail), tuple(args))
        if k not in self.base:
            if len(self.base) > 3000:
                self.base.clear()
            pool = [{"Hex": a, "Spare": 0} for a in args if a is not None]
            names, i = [], 0
            for a in args:
                names.append("nil" if a is None else "p%d" % i)
                i += a is not None
            try:
                R = gosim.execute(self.exe, {"Pool": pool, "Tasks": [[op(kind, rs, *names, fail=list(fail))]]})
                r = R["Res"][0] if R["Res"] else None
            except gosim.Crash as e:
                r = None
            self.base[k] = (visible(r), r["NYield"]) if r else (("no answer",), 0)
        return self.base[k]

    def case(self, rng):
        nt = rng.choice([1, 2, 2, 2, 3, 4])
        pool, ops = [], []

        def put(b):
            pool.append({"Hex": b.hex() if isinstance(b, bytes) else b, "Spare": rng.choice([0, 0, 1, 64, 700, 2000])})
            return "p%d" % (len(pool) - 1)
        keys = [rng.randrange(len(self.keys)) for _ in range(2)]
        sk = [put(self.keys[k]["sk"]) for k in keys]
        pk = [put(self.keys[k]["pk_n"]) for k in keys]
        lens = [0, 1, 16, 33, 100, 1000, rng.randrange(3000)] + ([5000, 66000] if rng.random() < .1 else [])
        msgs = [put(rng.randbytes(rng.choice(lens))) for _ in range(rng.choice([1, 2, 3]))]
        sms = []
        for _ in range(2):
            k, m = rng.randrange(2), rng.choice(msgs)
            v, _ = self.alone("sg", rng.randrange(50), [], [pool[int(m[1:])]["Hex"], self.keys[keys[k]]["sk"].hex(), None])
            sms.append((put(v[6] if len(v) > 6 else "00"), m, pk[k]))
        if rng.random() < .4:
            x = bytearray(bytes.fromhex(pool[int(sms[0][0][1:])]["Hex"]))
            if x:
                x[rng.randrange(len(x))] ^= 1 << rng.randrange(8)
            sms.append((put(bytes(x)), sms[0][1], sms[0][2]))
        if rng.random() < .3:
            # the same bytes, cut up differently
            x = [bytes.fromhex(pool[int(y[1:])]["Hex"]) for y in sms[0]]
            n = rng.choice([1, 1, 2, 40, 100])
            if rng.random() < .5:
                x[0], x[1] = (x[0] + x[1][:n], x[1][n:]) if rng.random() < .5 else (x[0][:-n], x[0][-n:] + x[1])
            else:
                x[1], x[2] = (x[1] + x[2][:n], x[2][n:]) if rng.random() < .5 or len(x[1]) < n else (x[1][:-n], x[1][-n:] + x[2])
            sms.append(tuple(put(y) for y in x))
        junk = put(rng.randbytes(rng.choice([0, 10, 896, 897, 1280, 1281, 1282])))
        tasks = []
        for t in range(nt):
            ops = []
            for j in range(rng.choice([1, 2, 3, 4, 6])):
                x = rng.random()
                fail = [rng.randrange(2), rng.randrange(49), rng.randrange(2)] if rng.random() < .12 else None
                kps = [i for i, o in enumerate(ops) if o["Kind"] == "kp"]
                sgs = [i for i, o in enumerate(ops) if o["Kind"] == "sg"]
                rs = rng.choice([rng.randrange(20), rng.getrandbits(50)])
                if x < .1:
                    ops.append(op("kp", rs, fail=fail))
                elif x < .5:
                    i = rng.choice(kps) if kps and rng.random() < .5 else None
                    b = rng.choice(sk) if i is None else "r%d.sk" % i
                    if rng.random() < .06:
                        b = junk
                    ops.append(op("sg", rs, rng.choice(msgs) if rng.random() < .93 else "nil", b, fail=fail))
                elif x < .9 or not (kps or sgs):
                    if sgs and rng.random() < .4:
                        i = rng.choice(sgs)
                        q = ops[i]["B"]
                        k = pk[sk.index(q)] if q in sk else (q[:-2] + "pk" if q[0] == "r" else pk[0])
                        ops.append(op("op", 1, "r%d.sm" % i, ops[i]["A"], k))
                    else:
                        s = rng.choice(sms)
                        ops.append(op("op", 1, s[0], s[1] if rng.random() < .9 else rng.choice(msgs), s[2] if rng.random() < .9 else rng.choice(pk + [junk])))
                else:
                    # the caller overwrites a result
                    a = rng.choice(["r%d.pk" % i for i in kps] + ["r%d.sk" % i for i in kps] + ["r%d.sm" % i for i in sgs])
                    if not any(a in (o["A"], o["B"], o["C"]) and o["Kind"] == "scribble" for o in ops):
                        ops.append(op("scribble", rng.randrange(256), a))
            own = sorted({x for o in ops if o["Kind"] != "scribble" for x in (o["A"], o["B"], o["C"]) if x[0] == "p"})
            for s in own:
                if rng.random() > .2:
                    continue
                # a buffer of its own, which is filled anew between calls
                b = put(pool[int(s[1:])]["Hex"])
                like = [x for x in (sk, pk) if s in x]
                for o in ops:
                    for f in "ABC":
                        if o[f] == s:
                            o[f] = b
                at = rng.randrange(1, len(ops) + 1)
                src = put(rng.randbytes(len(pool[int(b[1:])]["Hex"]) // 2)) if not like else rng.choice(like[0])
                new = op("refill", 1, b, src) if rng.random() < .8 else op("scribble", rng.randrange(256), b)
                for o in ops[at:]:
                    for f in "ABC":
                        if o[f][0] == "r":
                            i, g = o[f][1:].split(".")
                            o[f] = "r%d.%s" % (int(i) + (int(i) >= at), g)
                ops.insert(at, new)
                last = [o for o in ops[:at] if b in (o["A"], o["B"], o["C"]) and o["Kind"] in ("sg", "op")]
                if last and rng.random() < .6:
                    ops.insert(at + 1, dict(last[-1], Fail=[])) if at + 1 == len(ops) else ops.append(dict(last[-1], Fail=[]))
            tasks.append(ops or [op("kp", 3)])
        # where the calls can be interrupted is known from the call alone
        sws, chaos = [], []
        x = rng.random()
        if x < .6:
            for _ in range(rng.choice([1, 1, 2, 3, 5, 8])):
                t = rng.randrange(nt)
                j = rng.randrange(len(tasks[t]))
                n = {"kp": 11, "sg": 15, "op": 12}.get(tasks[t][j]["Kind"], 1)
                to = -1 if nt == 1 or rng.random() < .2 else rng.choice([y for y in range(nt) if y != t])
                sws.append({"Task": t, "Op": j, "N": rng.randrange(1, n + 1) if rng.random() < .9 else rng.randrange(1, 60), "To": to})
        else:
            chaos = [rng.getrandbits(40), rng.choice([30, 100, 300, 600]), rng.choice([0, 0, 20, 100])]
        return {"Pool": pool, "Tasks": tasks, "First": rng.randrange(nt), "Sws": sws, "Chaos": chaos}

    def run(self, c):
        out = Outcome(nontrivial=False)
        try:
            R = gosim.execute(self.exe, c)
        except gosim.Crash as e:
            out.bad = ("the process ends", str(e))
            out.digest = "crash"
            return out
        out.simtime = R["Yields"]
        if R["Res"] is None:
            out.bad = ("goroutines wait for each other for ever", "all of them wait")
            out.digest = "stuck"
            return out
        scr = sum(o["Kind"] == "scribble" and o["A"][0] == "r" for t in c["Tasks"] for o in t)
        fill = sum(o["Kind"] in ("scribble", "refill") and o["A"][0] == "p" for t in c["Tasks"] for o in t)
        out.faults = {"input buffer filled anew": fill, "goroutine preempted": len(R["Switched"]), "garbage collection": R["GCs"], "result overwritten by its owner": scr}
        out.nontrivial = bool(R["Switched"] or R["GCs"] or scr or fill)
        out.key = digest(R["Switched"], c["Tasks"], [p["Hex"] for p in c["Pool"]])
        out.digest = digest(R["Switched"], [visible(r) for r in R["Res"]])
        byk = {(r["Task"], r["Op"]): r for r in R["Res"]}
        for r in R["Res"]:
            o = c["Tasks"][r["Task"]][r["Op"]]
            where = "goroutine %d, call %d (%s)" % (r["Task"], r["Op"], o["Kind"])
            if o["Kind"] in ("scribble", "refill") or r["Skipped"]:
                continue
            if o["Fail"] and r["NRand"] > o["Fail"][0]:
                out.faults["randomness fails"] = out.faults.get("randomness fails", 0) + 1
            out.counts[o["Kind"]] = out.counts.get(o["Kind"], 0) + 1
            if r["InputChanged"] or r["InputChangedLater"]:
                out.bad = ("an input slice changes", where)
            elif r["Outside"]:
                out.bad = ("the memory behind an input slice changes", where)
            elif r["ResultChangedLater"]:
                out.bad = ("a returned slice changes later", where)
            else:
                args = self.args(c, r, byk)
                if args is None:
                    continue
                want, _ = self.alone(o["Kind"], o["RS"], o["Fail"], args)
                if want != visible(r):
                    names = ["panic", "error", "error text", "verdict", "public key", "private key", "signed message"]
                    out.bad = ("a call returns something else than alone", "%s: %s" % (where, ", ".join(n for n, x, y in zip(names, want, visible(r)) if x != y) if len(want) > 1 else "alone, it does not return"))
            if out.bad:
                return out
        return out

    @staticmethod
    def args(c, r, byk):
        """The bytes that the call got. None: they were overwritten before, by their owner."""
        o = c["Tasks"][r["Task"]][r["Op"]]
        res, now = [], {}
        for q in c["Tasks"][r["Task"]][:r["Op"]]:
            # what the buffers of this goroutine hold now
            s = q["A"]
            if s[0] == "p" and q["Kind"] in ("scribble", "refill"):
                b = now.get(s, c["Pool"][int(s[1:])]["Hex"])
                if q["Kind"] == "scribble":
                    now[s] = bytes(q["RS"] + k & 255 for k in range(len(b) // 2)).hex()
                else:
                    x = "" if q["B"] == "nil" else now.get(q["B"], c["Pool"][int(q["B"][1:])]["Hex"])[:len(b)]
                    now[s] = x + b[len(x):]
        for s in (o["A"], o["B"], o["C"]):
            if s == "nil":
                res.append(None)
            elif s[0] == "p":
                res.append(now.get(s, c["Pool"][int(s[1:])]["Hex"]))
            else:
                i, f = s[1:].split(".")
                if any(q["Kind"] == "scribble" and q["A"].split(".")[0] == "r" + i for q in c["Tasks"][r["Task"]][:r["Op"]]):
                    return None
                res.append(byk[r["Task"], int(i)][f.upper()])
        return res

    def shrink(self, c):
        for s in core.shrink_list(c["Sws"]):
            yield dict(c, Sws=s)
        if c["Chaos"]:
            yield dict(c, Chaos=[])
            if c["Chaos"][2]:
                yield dict(c, Chaos=c["Chaos"][:2] + [0])
        nt = len(c["Tasks"])
        for t in range(nt):
            if nt > 1:
                m = lambda x: x - (x > t)
                yield dict(c, Tasks=c["Tasks"][:t] + c["Tasks"][t + 1:], First=m(c["First"]) % (nt - 1),
                           Sws=[dict(s, Task=m(s["Task"]), To=m(s["To"])) for s in c["Sws"] if t not in (s["Task"], s["To"])])
            ops = c["Tasks"][t]
            if len(ops) > 1:
                yield dict(c, Tasks=c["Tasks"][:t] + [ops[:-1]] + c["Tasks"][t + 1:])
                for j in range(len(ops)):
                    # (a call without effect keeps the numbers of the others)
                    if not (ops[j]["Kind"] == "scribble" and ops[j]["A"] == "nil") and not any(x.startswith("r%d." % j) for o in ops for x in (o["A"], o["B"], o["C"])):
                        yield dict(c, Tasks=c["Tasks"][:t] + [ops[:j] + [op("scribble", 0, "nil")] + ops[j + 1:]] + c["Tasks"][t + 1:])
        for i, p in enumerate(c["Pool"]):
            if p["Hex"] and not any("p%d" % i in (o["A"], o["B"], o["C"]) for t in c["Tasks"] for o in t):
                yield dict(c, Pool=c["Pool"][:i] + [{"Hex": "", "Spare": 0}] + c["Pool"][i + 1:])
            if p["Spare"]:
                yield dict(c, Pool=c["Pool"][:i] + [dict(p, Spare=0)] + c["Pool"][i + 1:])
