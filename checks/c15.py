"""C15: results of the C library depend on the inputs alone, not on earlier calls."""
import json
from sim import core, cbuild
from sim.csim import Engine, op
from sim.core import Outcome, digest
from checks.c01 import load_keys, corrupt, relate

ID = "C15"
QUICK, THOROUGH = 60, 1200
RULE = ("A run is a process with a history of 2-14 calls: all kinds of call, encodings, aliased and separate buffers, repeated and new "
        "inputs, calls that fail (altered keys and signatures, failing randomness at a drawn request, short seeds, over-long messages), "
        "with drawn garbage on the stack and in the output buffers; each result is compared with the same call as the first one of another "
        "process with other garbage. The caller may use its input buffers again. Some histories make a key from a seed, from the seed with one byte changed, one byte longer or "
        "shorter, and sign and open with it in every encoding. Non-trivial: at least one call of the history failed, or a key was made from a seed.")
MEASURE = "hash of the calls of the history and of their results"
TIME_UNIT = "library calls"
REAL = ["all C sources of falcon/nistfalcon/src"]
STUB = ["randombytes (a stream per call with failures)"]
ASSUMPTIONS = ["on failure only the status and whether buffers changed are compared"]


def build(d):
    return {"exe": cbuild.csim(d, "sched", False), "exe_eth": cbuild.csim(d, "sched", True)}


def visible(r):
    if r.ret == 0:
        return (0, r.len if not r.lensame else None, r.o1, r.o2, r.guard, r.inchanged)
    # (the buffers of a failed opening are not specified further than by C06)
    return (r.ret, r.guard, r.inchanged)


class World:
    def __init__(self, ctx):
        self.eng = {False: Engine(ctx["exe"]), True: Engine(ctx["exe_eth"])}
        self.keys = load_keys()
        self.base = {}
        self.signed = {}

    def close(self):
        for e in self.eng.values():
            e.close()

    def alone(self, eth, o):
        k = (eth, json.dumps(o, sort_keys=True))
        if k not in self.base:
            if len(self.base) > 1500:
                self.base.clear()
            R = self.eng[eth].run([[dict(o, fill=0x5EED if o["fill"] != 0x5EED else 1)]], limit=10 ** 9)
            r = R.res.get((0, 0))
            self.base[k] = visible(r) if r else ("none", R.bad)
        return self.base[k]

    def sign(self, eth, v, k, m, rs):
        """A signed message, made in a process of its own."""
        x = (eth, v, k, m, rs)
        if x not in self.signed:
            if len(self.signed) > 500:
                self.signed.clear()
            R = self.eng[eth].run([[op("sg_" + v, rs=rs, a=m, b=self.keys[k]["sk"])]])
            r = R.res.get((0, 0))
            self.signed[x] = r.o1 if r and r.ret == 0 else b"\0" * 50
        return self.signed[x]

    def case(self, rng):
        eth = rng.random() < .4
        if rng.random() < .25:
            n = rng.choice([32, 33, 47, 48, 49, 64, 100, 135, 136, 137, 138, 200, 271, 272, 273, 300, 400, 545, 1000, 5000])
            seed = rng.randbytes(n) if rng.random() < .8 else bytes([rng.randrange(256)]) * n
            pos = rng.choice([0, n - 1, rng.randrange(n), min(n - 1, rng.choice([31, 32, 47, 48, 64, 128, 135, 136, 255, 256]))])
            return {"eth": eth, "seed": seed.hex(), "pos": pos, "bit": rng.randrange(8), "short": rng.randrange(32), "fill": rng.getrandbits(30) + 1,
                    "m": rng.randbytes(rng.choice([0, 1, 33, rng.randrange(500)])).hex(), "rs": rng.getrandbits(50)}
        # a few inputs that come back, so that state kept from an earlier call meets a related one
        pool = [(rng.choice("nze"), rng.randrange(3), rng.randbytes(rng.choice([0, 1, 32, 33, 100, 300, rng.randrange(4200)])), rng.randrange(1 << 50))
                for _ in range(rng.choice([1, 2, 3]))]
        ops = []
        for _ in range(rng.choice([2, 3, 5, 8, 14])):
            v, k, m, rs = rng.choice(pool)
            if rng.random() < .3:
                v = rng.choice("nze")
            key = self.keys[k]
            pk = key["pk_n" if v == "n" else "pk_z"]
            fill = rng.choice([0, 0, rng.getrandbits(30) + 1])
            r = rng.random()
            if r < .08:
                o = op("kp_" + rng.choice("nz"), rs=rs, fill=fill, fail=rng.choice([None, None, "0:%d:0" % rng.randrange(49)]))
            elif r < .12:
                o = op("ks_" + rng.choice("nz"), rs=rs, fill=fill, a=m[:60].ljust(rng.choice([0, 20, 31, 32, 48, 80]), b"s"))
            elif r < .17:
                o = op("pk_e", fill=fill, b=pk if v != "n" and rng.random() < .8 else rng.randbytes(1025))
            elif r < .55:
                fail = "%d:%d:%d" % (rng.randrange(2), rng.randrange(49), rng.random() < .5) if rng.random() < .25 else None
                sk = bytearray(key["sk"])
                if rng.random() < .15:
                    sk[rng.choice([0, rng.randrange(len(sk))])] ^= 1 << rng.randrange(8)
                o = op("sg_" + v, rs=rs if rng.random() < .7 else rng.randrange(1 << 50), fill=fill, fail=fail, alias=rng.choice([0, 0, 1, 2]), a=m, b=bytes(sk))
            else:
                sm = self.sign(eth, v, k, m, rs % 8)
                x = rng.random()
                if x < .3:
                    sm = corrupt(rng, sm)
                elif x < .4:
                    # altered near the end: found out late
                    sm = bytearray(sm)
                    if sm:
                        sm[-1 - rng.randrange(min(len(sm), 600))] ^= 1 << rng.randrange(8)
                    sm = bytes(sm)
                if rng.random() < .1:
                    pk = self.keys[(k + 1) % 3]["pk_n" if v == "n" else "pk_z"]
                o = op("op_" + v, fill=fill, alias=rng.choice([0, 0, 1]), a=sm, b=pk)
            ops.append(o)
            if rng.random() < .3:
                ops.append(relate(rng, rng.choice(ops)))
        return {"eth": eth, "ops": ops, "reuse": rng.random() < .4}

    def seeded(self, c):
        """Key pairs from seeds, judged by what they are."""
        eth, seed = c["eth"], bytes.fromhex(c["seed"])
        out = Outcome(nontrivial=True, counts={"keys from seeds": 1})
        flip = bytearray(seed)
        flip[c["pos"]] ^= 1 << c["bit"]
        f = c["fill"]
        ops = [op("ks_n", fill=f, a=seed), op("ks_z", fill=f + 7, a=seed), op("ks_n", fill=f, a=bytes(flip)), op("ks_z", fill=f, a=seed[:c["short"]]),
               op("ks_n", fill=f, a=seed + b"\0"), op("ks_n", fill=f, a=seed[:-1]), op("ks_n", fill=0, a=seed)]
        R = self.eng[eth].run([ops], limit=10 ** 10)
        rs = [R.res.get((0, j)) for j in range(len(ops))]
        out.simtime = len(ops)
        out.digest = digest([visible(r) if r else None for r in rs], R.bad)
        if any(r is None for r in rs):
            out.bad = ("a call does not return", "key generation from a seed of %d bytes: %s" % (len(seed), R.bad))
            return out
        n, z, fl, sh, lo, st, again = rs
        if n.ret or z.ret or fl.ret or lo.ret or again.ret:
            out.bad = ("a good seed is refused", "%d bytes: status %s" % (len(seed), [n.ret, z.ret, fl.ret, lo.ret, again.ret]))
        elif n.o2 != z.o2:
            out.bad = ("the same seed gives different private keys in the two encodings", "%d bytes" % len(seed))
        elif (again.o1, again.o2) != (n.o1, n.o2):
            out.bad = ("the same seed gives different keys", "%d bytes: second time in one process" % len(seed))
        elif fl.o2 == n.o2 or lo.o2 == n.o2 or lo.o1 == n.o1 or fl.o1 == n.o1 or (st.ret == 0 and st.o2 == n.o2):
            out.bad = ("different seeds give the same key", "%d bytes, byte %d altered: %s, one byte longer: %s, one byte shorter: %s"
                       % (len(seed), c["pos"], fl.o2 == n.o2, lo.o2 == n.o2, st.ret == 0 and st.o2 == n.o2))
        elif sh.ret == 0 or not (sh.o1same and sh.o2same):
            out.bad = ("a seed of under 32 bytes is not refused", "%d bytes: status %d, buffers unchanged %d %d" % (c["short"], sh.ret, sh.o1same, sh.o2same))
        elif len(seed) - 1 < 32 and st.ret == 0:
            out.bad = ("a seed of under 32 bytes is not refused", "%d bytes" % (len(seed) - 1))
        if out.bad:
            return out
        m = bytes.fromhex(c["m"])
        E = [op("pk_e", fill=f, b=z.o1)]
        S = [op("sg_" + v, rs=c["rs"] + i, fill=f, a=m, b=n.o2) for i, v in enumerate("nze")]
        R = self.eng[eth].run([E + S], limit=10 ** 9)
        rs = [R.res.get((0, j)) for j in range(4)]
        if any(r is None or r.ret for r in rs):
            out.bad = ("a key from a seed cannot sign", "%s" % [r and r.ret for r in rs])
            return out
        O = [op("op_" + v, fill=f, a=r.o1, b=pk) for v, r, pk in zip("nze", rs[1:], (n.o1, z.o1, rs[0].o1))]
        # (the key as it comes also opens Epervier signatures in this interface)
        R = self.eng[eth].run([O], limit=10 ** 9)
        for v, j in (("n", 0), ("z", 1)):
            r = R.res.get((0, j))
            if r is None or r.ret or r.o1 != m:
                out.bad = ("a key from a seed does not open its own signature", "encoding %s: status %s" % (v, r and r.ret))
        return out

    def run(self, c):
        if "seed" in c:
            return self.seeded(c)
        R = self.eng[c["eth"]].run([c["ops"]], limit=10 ** 10, reuse=c["reuse"])
        out = Outcome(simtime=len(c["ops"]), nontrivial=c["reuse"])
        if c["reuse"]:
            out.faults["input buffers filled anew"] = len(c["ops"]) - 1
        out.digest = digest(sorted((k, visible(r)) for k, r in R.res.items()), R.bad, c["ops"])
        for j, o in enumerate(c["ops"]):
            r = R.res.get((0, j))
            want = self.alone(c["eth"], o)
            if r is None:
                if want[0] != "none":
                    out.bad = ("a call does not return after others did", "call %d (%s): %s" % (j, o["kind"], R.bad))
                return out
            if r.ret:
                out.nontrivial = True
            key = "%s %s" % (o["kind"], "fails" if r.ret else "succeeds")
            out.counts[key] = out.counts.get(key, 0) + 1
            if o["fail"] and r.nrand > int(o["fail"].split(":")[0]):
                out.faults["randombytes fails"] = out.faults.get("randombytes fails", 0) + 1
            if visible(r) != want:
                out.bad = ("a call gives another result after other calls", "call %d (%s): status %s, first in a process %s%s"
                           % (j, o["kind"], r.ret, want[0], ", other bytes" if r.ret == want[0] else ""))
                return out
        return out

    def shrink(self, c):
        if "seed" in c:
            if c["m"]:
                yield dict(c, m="")
            return
        for ops in core.shrink_list(c["ops"], 1):
            yield dict(c, ops=ops)
        for j, o in enumerate(c["ops"]):
            for s in ([dict(o, a=o["a"][:2])] if o["kind"][0] == "s" and o["a"] and len(o["a"]) > 2 else []) + ([dict(o, alias=0)] if o["alias"] else []) + ([dict(o, fail=None)] if o["fail"] else []):
                yield dict(c, ops=c["ops"][:j] + [s] + c["ops"][j + 1:])
