"""C01: concurrent calls of the C library behave as if each ran alone."""
import json
from sim import core, cbuild
from sim.csim import Engine, op
from sim.core import Outcome, digest

ID = "C01"
QUICK, THOROUGH = 60, 1500
RULE = ("A run is 2-5 tasks with 1-3 library calls each, drawn from a pool of calls (key generation, signing, opening of valid and "
        "altered messages; NIST, 16-bit and Epervier; normal and ETHFALCON build; input buffers may be the ones of the task's call before, filled anew), and a schedule: 1-8 preemptions at events picked by "
        "code site (every site weighs the same), or random preemption with a probability drawn per run. Non-trivial: at least one "
        "task was preempted inside a call and another call ran while it was suspended.")
MEASURE = "hash of the sequence (task, call, event in the call, next task) of all context switches and of the calls"
TIME_UNIT = "events (function entries, accesses to shared memory, lock and randomness operations)"
REAL = ["all C sources of falcon/nistfalcon/src compiled with -fsanitize=thread instrumentation"]
STUB = ["thread scheduler (one thread runs at a time, chosen by the plan)", "randombytes (a stream per call)", "operating-system entropy"]
ASSUMPTIONS = ["preemption happens only at events; between two events of a task its code touches no memory that is shared",
               "sequentially consistent memory", "the reference is the same call, alone, in a pristine process of the same build"]


def build(d):
    return {"exe": cbuild.csim(d, "sched", False), "exe_eth": cbuild.csim(d, "sched", True)}


def load_keys():
    with open(core.VERIF + "/fixtures/keys512.json") as f:
        return [{k: bytes.fromhex(v) for k, v in x.items()} for x in json.load(f)]


def corrupt(rng, b):
    b = bytearray(b)
    if not b:
        return bytes(b)
    k = rng.randrange(4)
    if k == 0:
        b[rng.randrange(len(b))] ^= 1 << rng.randrange(8)
    elif k == 1:
        del b[rng.randrange(len(b)):]
    elif k == 2:
        b[0] ^= rng.randrange(1, 256)
    else:
        b += bytes(rng.randrange(1, 5))
    return bytes(b)


def relate(rng, o):
    """Nearly the same call: one input with one bit altered."""
    w = rng.choice([x for x in "ab" if o[x]] or [None])
    if w is None:
        return dict(o, rs=o["rs"] if isinstance(o["rs"], str) else o["rs"] ^ 1)
    b = bytearray.fromhex(o[w])
    # the last bytes of a signature are likely padding or decide late; the first bytes are headers
    i = rng.choice([rng.randrange(len(b)), rng.randrange(len(b)), -1 - rng.randrange(min(len(b), 40)), rng.randrange(min(len(b), 48))])
    b[i] ^= 1 << rng.randrange(8)
    return dict(o, **{w: b.hex()})


def make_pool(rng, eng, keys, n):
    """Library calls with valid and invalid inputs. Signed messages are made by the library itself."""
    pool = []
    variants = ["n", "z", "e"]

    def message():
        return rng.randbytes(rng.choice([0, 1, 5, 32, 33, 136, 200, 1000, rng.randrange(4000)]))
    for i in range(n):
        v = rng.choice(variants)
        key = rng.choice(keys)
        pk = key["pk_n"] if v == "n" else key["pk_z"]
        what = rng.choices(["kp", "ks", "sg", "op", "pk"], [1, 1, 5, 8, 1])[0]
        rs, fill = rng.getrandbits(60), rng.getrandbits(30) + 1
        if what == "kp":
            o = op("kp_" + ("n" if v == "n" else "z"), rs=rs, fill=fill)
        elif what == "ks":
            o = op("ks_" + ("n" if v == "n" else "z"), rs=rs, fill=fill, a=rng.randbytes(rng.choice([31, 32, 48, 48, 64, 200])))
        elif what == "pk":
            o = op("pk_e", rs=rs, fill=fill, b=pk if rng.random() < .9 and v != "n" else corrupt(rng, key["pk_z"])[:1025].ljust(1025, b"\0"))
        elif what == "sg":
            fail = None
            if rng.random() < .1:
                fail = "%d:%d:0" % (rng.randrange(2), rng.randrange(60))
            sk = key["sk"]
            if rng.random() < .1:
                sk = bytearray(sk)
                sk[rng.randrange(len(sk))] ^= 1 << rng.randrange(8)
                sk = bytes(sk)
            o = op("sg_" + v, rs=rs, fill=fill, fail=fail, alias=rng.choice([0, 0, 1, 2]), a=message(), b=sk)
        else:
            r = eng.exec(op("sg_" + v, rs=rs, a=message(), b=key["sk"]))
            sm = r.o1
            if rng.random() < .3:
                sm = corrupt(rng, sm)
            if rng.random() < .1:
                pk = rng.choice(keys)["pk_n" if v == "n" else "pk_z"]
            o = op("op_" + v, rs=rs, fill=fill, alias=rng.choice([0, 0, 1]), a=sm, b=pk)
        pool.append(o)
        if rng.random() < .25:
            pool.append(relate(rng, o))
    return pool


class World:
    POOL = 60

    def __init__(self, ctx):
        self.eng = {False: Engine(ctx["exe"]), True: Engine(ctx["exe_eth"])}
        self.base = {}
        self.keys = load_keys()
        self.pools = {}

    def close(self):
        for e in self.eng.values():
            e.close()

    def alone(self, eth, o):
        """The call alone in a pristine process: (observables or what went wrong, events, sites)."""
        k = (eth, json.dumps(o, sort_keys=True))
        if k not in self.base:
            R = self.eng[eth].run([[o]], trace=True)
            r = R.res.get((0, 0))
            sites = [s for s in R.sites]
            self.base[k] = (r.observable() if r else ("none", R.bad), r.nev if r else 0, sites)
            if len(self.base) > 3000:
                self.base.pop(next(iter(self.base)))
        return self.base[k]

    def pool(self, rng, eth):
        # several small pools, so that their baselines are shared by many runs of a worker;
        # a pool is a function of its number alone
        b = rng.randrange(40)
        k = (eth, b)
        if k not in self.pools:
            r = core.rng_for(b, "C01-pool-%d" % eth, 0)
            e = Engine(self.eng[eth].exe)
            try:
                self.pools[k] = make_pool(r, e, self.keys, 8)
            finally:
                e.close()
        return self.pools[k]

    def case(self, rng):
        eth = rng.random() < .4
        pool = self.pool(rng, eth)
        nt = rng.choice([2, 2, 2, 3, 3, 4, 5])
        few = rng.random() < .5
        light = rng.random() < .7
        cand = [o for o in pool if not light or o["kind"][0] not in "k"] or pool
        if few:
            # the same few calls in every task: shared state that depends on the input collides and differs
            cand = [rng.choice(cand) for _ in range(2)]
        tasks = [[rng.choice(cand) for _ in range(rng.choice([1, 1, 2, 3]))] for _ in range(nt)]
        sws, chaos = [], None
        if rng.random() < .75:
            for _ in range(rng.choice([1, 1, 2, 2, 3, 4, 6, 8])):
                t = rng.randrange(nt)
                o = rng.randrange(len(tasks[t]))
                _, nev, sites = self.alone(eth, tasks[t][o])
                if not sites:
                    continue
                s = rng.choice([x for x in sites if x[0]] or sites) if rng.random() < .5 else rng.choice(sites)
                ev = rng.choice(s[2]) + rng.choice([0, 0, 0, 1, -1, 2])
                sws.append([t, o, max(1, ev), rng.choice([x for x in range(nt) if x != t])])
        else:
            tot = sum(self.alone(eth, o)[1] for t in tasks for o in t) or 1
            chaos = [rng.getrandbits(60), min(2 ** 31, int(2 ** 32 * rng.choice([2, 10, 50, 300]) / tot))]
        return {"eth": eth, "tasks": tasks, "sws": sws, "chaos": chaos, "first": rng.randrange(nt), "reuse": rng.random() < .4}

    def run(self, c):
        eng = self.eng[c["eth"]]
        want = [[self.alone(c["eth"], o) for o in t] for t in c["tasks"]]
        total = sum(w[1] for t in want for w in t)
        R = eng.run(c["tasks"], sws=c["sws"], chaos=c["chaos"], first=c["first"], limit=20 * total + 10 ** 6, reuse=c["reuse"])
        obs = sorted((k, r.observable()) for k, r in R.res.items())
        key = digest(R.stat and R.stat["hash"], [[(o["kind"], o["rs"], o["fill"]) for o in t] for t in c["tasks"]], c["eth"])
        kinds = {}
        for t in c["tasks"]:
            for o in t:
                kinds["calls " + o["kind"]] = kinds.get("calls " + o["kind"], 0) + 1
                if o["fail"]:
                    kinds["calls with failing randomness"] = kinds.get("calls with failing randomness", 0) + 1
        faults = {"preemption": R.stat["switches"] if R.stat else 0, "input buffers filled anew": int(c["reuse"]) * sum(len(t) - 1 for t in c["tasks"])}
        out = Outcome(digest=digest(obs, R.sw, R.stat, R.bad), key=key, faults=faults, counts=kinds,
                      simtime=R.stat["events"] if R.stat else 0, nontrivial=bool(R.sw))
        out.sw = R.sw
        if R.bad:
            # only if the calls alone end properly
            if all(not isinstance(w[0][0], str) for t in want for w in t):
                out.bad = ("the calls do not return", R.bad)
            return out
        for t, ops in enumerate(c["tasks"]):
            for j, o in enumerate(ops):
                r = R.res.get((t, j))
                got = r.observable() if r else ("none", None)
                exp = want[t][j][0]
                if got != exp:
                    names = ("status", "output 1 unchanged", "output 2 unchanged", "length unchanged", "guard zones intact", "input changed", "length", "output 1", "output 2")
                    diff = [n for n, g, e in zip(names, got, exp) if g != e] if len(got) == len(exp) else ["result"]
                    out.bad = ("a call is disturbed by concurrent ones", "task %d call %d (%s): %s differ from the call alone (status %s, alone %s)"
                               % (t, j, o["kind"], ", ".join(diff), got[0], exp[0]))
                    return out
        return out

    def shrink(self, c):
        if c["chaos"]:
            o = self.run(c)
            yield dict(c, chaos=None, sws=o.sw)
            p = c["chaos"][1]
            if p > 1000:
                yield dict(c, chaos=[c["chaos"][0], p // 4])
        if c["reuse"]:
            yield dict(c, reuse=False)
        for sws in core.shrink_list(c["sws"]):
            yield dict(c, sws=sws)
        nt = len(c["tasks"])
        for t in range(nt):
            if nt > 2:
                m = lambda x: x - (x > t)
                yield dict(c, tasks=c["tasks"][:t] + c["tasks"][t + 1:], first=m(c["first"]) % (nt - 1),
                           sws=[[m(a), o, e, m(b)] for a, o, e, b in c["sws"] if a != t and b != t])
            for j in range(len(c["tasks"][t])):
                if len(c["tasks"][t]) > 1:
                    yield dict(c, tasks=c["tasks"][:t] + [c["tasks"][t][:j] + c["tasks"][t][j + 1:]] + c["tasks"][t + 1:],
                               sws=[[a, o - (a == t and o > j), e, b] for a, o, e, b in c["sws"] if not (a == t and o == j)])
        for t in range(nt):
            for j, o in enumerate(c["tasks"][t]):
                small = []
                if o["kind"][0] == "s" and o["a"] and len(o["a"]) > 2:
                    small.append(dict(o, a=o["a"][:2]))
                if o["alias"]:
                    small.append(dict(o, alias=0))
                for s in small:
                    ts = [list(x) for x in c["tasks"]]
                    ts[t][j] = s
                    yield dict(c, tasks=ts)
