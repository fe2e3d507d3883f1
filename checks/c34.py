"""C34: the geth precompile answers by its call data alone, as the Go binding does."""
import random
from sim import core, gosim
from sim.core import Outcome, digest
from checks import c10
from checks.c09 import op

ID = "C34"
QUICK, THOROUGH = 60, 1500
MINIMISE = 60
RULE = ("A run is a node: one instance of the precompile, 1-4 goroutines that execute 1-6 calls each. Call data are ABI encodings, canonical or not (other "
        "order of the tails, gaps, shared or overlapping tails, no or dirty padding), of signed messages, messages and keys (some of one origin) that a network may have altered in up to 3 ways, then altered "
        "themselves (bits, offsets and lengths up to 2^256 - 1, truncation, extension), or nothing, or random. Inputs are shared by calls, lie in memory with other data behind, and are overwritten by their "
        "owner after the call. Yield points before every statement of precompile and binding; directed or random switches; garbage collections; standard "
        "output works, is closed or is a broken pipe. Every call is compared with the definition (reference decoder, set of what was signed) and, with its gas, with "
        "the same call on another node. Non-trivial: a fault fired or a goroutine lost its turn.")
MEASURE = "hash of the call data, the results and the switches taken"
TIME_UNIT = "yield points passed"
REAL = ["the precompile in geth/contracts.go (extracted with all it reaches, instrumented)", "falcon/falcon.go (instrumented copy)", "all C sources of falcon/nistfalcon/src", "the Go runtime and its garbage collector"]
STUB = ["go-ethereum packages common and accounts/abi (csim/gosim/gethcommon, gethabi: the functions used here, written after the originals)", "the rest of geth", "network", "randombytes", "goroutine scheduling (one runs at a time)"]
ASSUMPTIONS = ["abi.Unpack decodes as the one of go-ethereum does", "nobody forges a signature"]
M = 1 << 256


def build(d):
    return {"exe": gosim.build(d, False, True)}


def word(x):
    return (x % M).to_bytes(32, "big")


def encode(rng, parts, how):
    """ABI encoding of three bytes values."""
    order = [0, 1, 2]
    if how in ("order", "gaps", "mess"):
        rng.shuffle(order)
    at, tail = [0, 0, 0], b""
    for i in order:
        if how in ("gaps", "mess"):
            tail += rng.randbytes(rng.choice([0, 1, 31, 32, 33]))
        if how in ("shared", "mess"):
            # an equal value that is there already
            j = tail.find(word(len(parts[i])) + parts[i])
            if j >= 0:
                at[i] = 96 + j
                continue
        at[i] = 96 + len(tail)
        pad = -len(parts[i]) % 32
        p = bytes(pad)
        if how in ("dirty", "mess"):
            p = rng.randbytes(pad)
        elif how == "tight":
            p = b""
        tail += word(len(parts[i])) + parts[i] + p
    if how == "cutpad":
        tail = tail.rstrip(b"\0") if rng.random() < .5 else tail[:len(tail) - (-len(parts[order[-1]]) % 32)]
    return b"".join(word(x) for x in at) + tail


def decode(b):
    """The three values, or None: refused."""
    res = []
    for i in range(3):
        if 32 * i + 32 > len(b):
            return None
        o = int.from_bytes(b[32 * i:32 * i + 32], "big") + 32
        if o > len(b):
            return None
        n = int.from_bytes(b[o - 32:o], "big")
        if o + n > len(b):
            return None
        res.append(b[o:o + n])
    return res


def spoil(rng, b, kind):
    """A network or a hostile caller changes call data."""
    x = bytearray(b)
    big = rng.choice([1 << 63, (1 << 63) - 32, (1 << 64) - 1, 1 << 64, (1 << 64) - 32, M - 1, M - 32, M >> 1, (1 << 31) - 1, 1 << 32, len(b), len(b) - 32, len(b) - 31, len(b) + 1, 96, 64, 0, 1, 31, 33])
    if kind == "bit" and x:
        x[rng.randrange(len(x))] ^= 1 << rng.randrange(8)
    elif kind == "head bit" and x:
        x[rng.randrange(min(96, len(x)))] ^= 1 << rng.randrange(8)
    elif kind == "offset" and len(x) >= 96:
        i = 32 * rng.randrange(3)
        x[i:i + 32] = word(big)
    elif kind == "near offset" and len(x) >= 96:
        i = 32 * rng.randrange(3)
        x[i:i + 32] = word(int.from_bytes(x[i:i + 32], "big") + rng.choice([-32, -1, 1, 32, 64]))
    elif kind in ("length", "near length") and len(x) >= 96:
        i = int.from_bytes(x[32 * (j := rng.randrange(3)):32 * j + 32], "big")
        if i + 32 <= len(x):
            n = int.from_bytes(x[i:i + 32], "big")
            x[i:i + 32] = word(big if kind == "length" else n + rng.choice([-32, -1, 1, 31, 32]))
    elif kind == "swap" and len(x) >= 96:
        i, j = rng.sample(range(3), 2)
        x[32 * i:32 * i + 32], x[32 * j:32 * j + 32] = bytes(x[32 * j:32 * j + 32]), bytes(x[32 * i:32 * i + 32])
    elif kind == "same" and len(x) >= 96:
        i, j = rng.sample(range(3), 2)
        x[32 * i:32 * i + 32] = x[32 * j:32 * j + 32]
    elif kind == "cut":
        x = x[:rng.choice([0, 1, 31, 32, 63, 64, 95, 96, 97, 128, len(x) - 1, len(x) - 32, rng.randrange(len(x) + 1)])]
    elif kind == "extend":
        x += rng.choice([b"\0", bytes(32), rng.randbytes(rng.randrange(1, 70)), bytes(x)])
    elif kind == "selector":
        x[:0] = rng.randbytes(4)
    elif kind == "random":
        x = bytearray(rng.randbytes(rng.choice([0, 1, 96, 192, rng.randrange(3000)])))
    return bytes(x)


KINDS = ["bit", "head bit", "offset", "near offset", "length", "near length", "swap", "same", "cut", "extend", "selector", "random"]


class World(c10.World):
    def __init__(self, ctx):
        super().__init__(ctx)
        self.known = {}
        self.base = {}

    def alone(self, data):
        """The call as the only one of a node: (panic, failed, output, gas), and the number of its yield points."""
        if data not in self.base:
            if len(self.base) > 2000:
                self.base.clear()
            try:
                R = self.execute([{"Hex": data.hex(), "Spare": 0}], [op("gr", 1, "p0")])
                r = R["Res"][0] if R["Res"] else None
            except gosim.Crash:
                r = None
            self.base[data] = ((r["Panic"], r["Failed"], r["SM"], r["Gas"]), r["NYield"]) if r else (None, 0)
        return self.base[data]

    def case(self, rng):
        data = []
        for _ in range(rng.choice([1, 2, 3, 4])):
            f = []
            if rng.random() > .4:
                for _ in range(rng.choice([1, 1, 1, 2, 3])):
                    f.append([rng.choice(["m", "pk", "pklen", "pknil", "otherpk", "mnil", "smnil", "empty", "coef", "random", "big", "forge", "tail", "shift", "shift", "bit", "truncate", "all", "cut"]), rng.getrandbits(40)])
            l = rng.choice([0, 1, 31, 32, 33, 64, 100, 897, rng.randrange(300), rng.randrange(3000)])
            if rng.random() < .03:
                l = rng.choice([4097, 5000, 66000])
            g = []
            if rng.random() > .5:
                for _ in range(rng.choice([1, 1, 2])):
                    g.append([rng.choice(KINDS), rng.getrandbits(40)])
            d = dict(rng.choice(data)) if data and rng.random() < .5 else {"m": rng.randbytes(l).hex(), "k": rng.randrange(4), "rs": rng.randrange(200)}
            data.append({"m": d["m"], "k": d["k"], "rs": d["rs"], "f": f, "enc": rng.choice(["plain", "plain", "order", "gaps", "shared", "dirty", "tight", "cutpad", "mess"]), "es": rng.getrandbits(40),
                         "g": g, "spare": rng.choice([0, 0, 5, 64, 800])})
        nt = rng.choice([1, 2, 2, 2, 3, 4])
        tasks = []
        for t in range(nt):
            tasks.append([[rng.randrange(len(data)), rng.random() < .3] for _ in range(rng.choice([1, 2, 3, 4, 6]))])
        sws, chaos = [], []
        if rng.random() < .6:
            for _ in range(rng.choice([1, 1, 2, 3, 5, 8])):
                t = rng.randrange(nt)
                j = rng.randrange(len(tasks[t]))
                to = -1 if nt == 1 or rng.random() < .2 else rng.choice([y for y in range(nt) if y != t])
                sws.append([t, j, rng.randrange(1, 48), to])
        else:
            chaos = [rng.getrandbits(40), rng.choice([30, 100, 300, 600]), rng.choice([0, 0, 20, 100])]
        return {"data": data, "tasks": tasks, "first": rng.randrange(nt), "sws": sws, "chaos": chaos, "mute": rng.choice([0, 0, 0, 1, 2])}

    def run(self, c):
        out = Outcome(nontrivial=False)

        def fault(k, n=1):
            if n:
                out.faults[k] = out.faults.get(k, 0) + n
                out.nontrivial = True
        calls, good = [], set()
        try:
            for d in c["data"]:
                x = self.deliver(d)
                if x is None:
                    out.bad = ("a message cannot be signed", "%d bytes" % (len(d["m"]) // 2))
                    out.digest = "nosign"
                    return out
                good.add((self.sm(d["k"], d["m"], d["rs"]), bytes.fromhex(d["m"]), self.keys[d["k"]]["pk_n"]))
                other = self.sm((d["k"] + 1) % 4, "00aa", 3)
                good.add((other, bytes.fromhex("00aa"), self.keys[(d["k"] + 1) % 4]["pk_n"]))
                for k in x[4]:
                    fault("network: " + k)
                b = encode(random.Random(d["es"]), [y or b"" for y in x[:3]], d["enc"])
                if d["enc"] != "plain":
                    fault("encoding: " + d["enc"])
                for kind, s in d["g"]:
                    b2 = spoil(random.Random(s), b, kind)
                    if b2 != b:
                        fault("call data: " + kind)
                    b = b2
                calls.append(b)
            # an input that its owner overwrites after the call is not shared
            pool = [{"Hex": b.hex(), "Spare": d["spare"]} for b, d in zip(calls, c["data"])]
            which = {}
            tasks, back = [], {}
            for t, l in enumerate(c["tasks"]):
                ops = []
                for i, own in l:
                    name = "p%d" % i
                    if own:
                        pool.append(dict(pool[i]))
                        name = "p%d" % (len(pool) - 1)
                    back[len(which)] = (t, len(ops))
                    which[t, len(ops)] = i
                    ops.append(op("gr", 1, name))
                    if own:
                        ops.append(op("scribble", 7, name))
                        fault("input overwritten after the call")
                tasks.append(ops)
            js = {}
            for (t, j), i in which.items():
                js.setdefault(t, []).append(j)
            sws = [{"Task": t, "Op": js[t][j % len(js[t])], "N": n, "To": to} for t, j, n, to in c["sws"]]
            R = gosim.execute(self.exe, {"Pool": pool, "Tasks": tasks, "First": c["first"], "Sws": sws, "Chaos": c["chaos"], "Mute": c["mute"]})
        except gosim.Crash as e:
            out.bad = ("the process ends", str(e))
            out.digest = "crash"
            return out
        out.simtime = R["Yields"]
        if R["Res"] is None:
            out.bad = ("calls wait for each other for ever", "")
            out.digest = "stuck"
            return out
        fault("goroutine preempted", len(R["Switched"]))
        fault("garbage collection", R["GCs"])
        fault("standard output " + ["", "closed", "is a broken pipe"][c["mute"]], int(c["mute"] > 0))
        log = []
        for r in R["Res"]:
            k = (r["Task"], r["Op"])
            if k not in which:
                continue
            b = calls[which[k]]
            log.append((k, r["Panic"], r["Failed"], r["SM"], r["Gas"]))
            v = decode(b)
            yes = v is not None and tuple(v) in good
            core.add(out.counts, {"refused": int(v is None), "valid": int(yes), "invalid": int(v is not None and not yes)})
            if out.bad:
                continue
            where = "goroutine %d, call %d, %d bytes of call data %s" % (k + (len(b), [c["data"][which[k]][x] for x in "fg"]))
            if r["Panic"]:
                out.bad = ("a call panics", "%s: %s" % (where, r["Panic"]))
            elif r["InputChanged"] or r["InputChangedLater"] or r["Outside"]:
                out.bad = ("the memory of the caller changes", where)
            elif r["ResultChangedLater"]:
                out.bad = ("an output changes later", where)
            elif r["Failed"] and r["SM"]:
                out.bad = ("an error with an output", where)
            elif r["Failed"] and v is not None:
                out.bad = ("call data are refused that can be decoded", "%s: %s" % (where, r["Err"]))
            elif v is None and not r["Failed"]:
                out.bad = ("call data that cannot be decoded are answered", "%s: %s" % (where, r["SM"]))
            elif v is not None and r["SM"] != "%064x" % yes:
                out.bad = ("a wrong answer", "%s: %s, but %s" % (where, r["SM"] or "nothing", "this was signed" if yes else "this was not signed"))
            else:
                a, _ = self.alone(b)
                if a != (r["Panic"], r["Failed"], r["SM"], r["Gas"]):
                    out.bad = ("nodes disagree", "%s: %s, alone %s" % (where, (r["Failed"], r["SM"], r["Gas"]), a))
        out.key = digest(R["Switched"], log, [x.hex() for x in calls])
        out.digest = digest(R["Switched"], log)
        return out

    def shrink(self, c):
        for s in core.shrink_list(c["sws"]):
            yield dict(c, sws=s)
        if c["chaos"]:
            yield dict(c, chaos=[])
        if c["mute"]:
            yield dict(c, mute=0)
        nt = len(c["tasks"])
        for t in range(nt):
            if nt > 1:
                m = lambda x: x - (x > t)
                yield dict(c, tasks=c["tasks"][:t] + c["tasks"][t + 1:], first=m(c["first"]) % (nt - 1), sws=[[m(s[0]), s[1], s[2], m(s[3])] for s in c["sws"] if t not in (s[0], s[3])])
            for l in core.shrink_list(c["tasks"][t], 1):
                yield dict(c, tasks=c["tasks"][:t] + [l] + c["tasks"][t + 1:])
        for i, d in enumerate(c["data"]):
            r = lambda **k: dict(c, data=c["data"][:i] + [dict(d, **k)] + c["data"][i + 1:])
            for f in core.shrink_list(d["f"]):
                yield r(f=f)
            for g in core.shrink_list(d["g"]):
                yield r(g=g)
            if d["enc"] != "plain":
                yield r(enc="plain")
            if len(d["m"]) > 2:
                yield r(m=d["m"][:len(d["m"]) // 4 * 2])
            if d["spare"]:
                yield r(spare=0)
