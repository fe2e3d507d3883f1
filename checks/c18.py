"""C18: hostile bytes never lead the C library outside the caller's buffers."""
import random
from sim import core, cbuild, net
from sim.csim import Engine, op, Dead
from sim.core import Outcome, digest
from checks.c01 import load_keys

ID = "C18"
QUICK, THOROUGH = 50, 1500
RULE = ("A run: one process receives 4-24 calls whose inputs come over a hostile network: genuine signed messages after 0-6 faults of 16 "
        "kinds (cut, extended, re-encoded, lengths rewritten, ...), random bytes, runs of one byte, keys, secret keys and seeds of any "
        "content (secret keys and public keys of the announced size, everything else of any length, also none), in place or not, with "
        "failing randomness in between. Every buffer is an allocation of exactly its announced size under AddressSanitizer. "
        "Non-trivial: at least one input differs from a genuine one.")
MEASURE = "hash of the calls and their results"
TIME_UNIT = "library calls"
REAL = ["all C sources of falcon/nistfalcon/src with AddressSanitizer"]
STUB = ["network", "randombytes (a stream per call with failures)"]
ASSUMPTIONS = ["AddressSanitizer sees an access outside of a heap, stack or global object, unless it hits another object",
               "secret keys that decode but do not belong to a key pair are not among the inputs, except by chance"]


def build(d):
    return {e: cbuild.csim(d, "asan", e) for e in (False, True)}


def first_error(text):
    for l in text.splitlines():
        if "ERROR:" in l or "runtime error" in l:
            fr = [x.strip() for x in text.splitlines() if x.strip().startswith("#")][:4]
            # without addresses and process number, so that equal runs report equal text
            l = " ".join(w for w in l.split("ERROR: ")[-1].split() if not w.startswith("0x"))
            return l.split(" on ")[0] + " in " + ", ".join(x.split(" in ")[-1].split(" /")[0] for x in fr)
    return text.strip().splitlines()[0][:200] if text.strip() else "no output"


def overlap(rng):
    """A compressed signature that decodes, of a length whose low byte is the header byte of the signature: the length field and the
    signature overlap by one byte, or nearly."""
    body = 0x329 - 1
    extra = body * 8 - 512 * 9 - rng.randrange(8)
    ks = [0] * 512
    while extra:
        i = rng.randrange(512)
        if ks[i] < 14:
            ks[i] += 1
            extra -= 1
    bits = "".join("%d%s%s1" % (rng.randrange(2), format(rng.randrange(1, 128), "07b"), "0" * k) for k in ks)
    sig = int(bits.ljust(body * 8, "0"), 2).to_bytes(body, "big")
    return b"\x03\x29" + rng.choice([b"", b"", b"\x29", b"\0\x29", rng.randbytes(38) + b"\x29"]) + sig


class World:
    def __init__(self, ctx):
        self.eng = {k: Engine(x, env={"ASAN_OPTIONS": "detect_leaks=0:abort_on_error=0:symbolize=1"}) for k, x in ctx.items()}
        self.keys = load_keys()
        self.gen = {}

    def close(self):
        for e in self.eng.values():
            e.close()

    def case(self, rng):
        ops = []
        for _ in range(rng.choice([4, 8, 16, 24])):
            w = rng.random()
            v = rng.choice("nze")
            o = {"v": v, "k": rng.randrange(len(self.keys)), "seed": rng.getrandbits(48), "alias": rng.choice([0, 0, 0, 1]), "fail": None}
            if w < .62:
                o["what"] = "open"
                o["faults"] = [rng.choice(net.KINDS) for _ in range(rng.choice([0, 1, 1, 2, 3, 6]))]
                o["raw"] = rng.random() < .12
                o["pkraw"] = rng.choice([0, 0, 0, 0, 1, 2, 3])
                o["mlen"] = rng.choice([0, 1, 33, 200, rng.randrange(5000)])
            elif w < .87:
                o["what"] = "sign"
                o["skraw"] = rng.choice([0, 0, 0, 1, 2, 3, 4])
                o["mlen"] = rng.choice([0, 1, 33, 200, 4056, 4057, 4096, rng.randrange(5000), rng.randrange(70000)])
                if rng.random() < .1:
                    o["fail"] = "%d:%d:0" % (rng.randrange(2), rng.randrange(60))
            elif w < .93:
                o["what"] = "seed"
                o["mlen"] = rng.choice([0, 1, 31, 32, 48, 135, 136, 137, rng.randrange(3000)])
            elif w < .99:
                o["what"] = "pk"
                o["pkraw"] = rng.choice([0, 1, 2, 3])
            else:
                o["what"] = "keys"
            ops.append(o)
        return {"eth": rng.random() < .5, "ops": ops}

    def genuine(self, eth, v, k, n, i):
        """A signed message; made by the library, once."""
        x = (eth, v, k, n, i)
        if x not in self.gen:
            if len(self.gen) > 300:
                self.gen.clear()
            m = random.Random(n * 7 + i).randbytes(n)
            if eth and v != "e":
                m = m[:4056]
            r = self.eng[eth].exec(op("sg_" + v, rs=i + 1, a=m, b=self.keys[k]["sk"]))
            self.gen[x] = r.o1 if r.ret == 0 else m
        return self.gen[x]

    def raw(self, rng, n):
        w = rng.randrange(4)
        if w == 0:
            return rng.randbytes(n)
        if w == 1:
            return bytes([rng.choice([0, 255, 9, 0x29, 0x59, 0x80, 1, 127])]) * n
        b = bytearray(rng.randbytes(n))
        i = rng.randrange(n + 1)
        b[i:] = bytes([rng.choice([0, 255])]) * (n - i)
        return bytes(b)

    def call(self, eth, o):
        rng = random.Random(o["seed"])
        v, key = o["v"], self.keys[o["k"]]
        size = 897 if v == "n" else 1025
        pk = key["pk_n" if v == "n" else "pk_z"]
        if o.get("pkraw") == 1:
            pk = pk[:1] + self.raw(rng, size - 1)
        elif o.get("pkraw") == 2:
            pk = net.mutate_pk(rng, pk, v)
        elif o.get("pkraw") == 3:
            pk = self.raw(rng, size)
        changed = bool(o.get("pkraw"))
        fill = rng.getrandbits(30) + 1
        if o["what"] == "open":
            g = self.genuine(eth, v, o["k"], o["mlen"], o["seed"] % 3)
            sm = g
            if o["raw"]:
                sm = self.raw(rng, rng.choice([0, 1, 2, 41, 42, 43, 44, 50, 689, 690, 691, 1066, 1067, 1068, 2093, 2094, 2095, rng.randrange(6000)]))
                if rng.random() < .1:
                    sm = overlap(rng)
                elif len(sm) > 2 and rng.random() < .7:
                    # a length that fits, and the right header byte
                    s = rng.choice([len(sm) - 42, 649, 1025, 2052, rng.randrange(1, 700)])
                    if 0 < s <= len(sm) - 42:
                        b = bytearray(sm)
                        b[:2] = (s & 0xFFFF).to_bytes(2, "big")
                        b[len(sm) - s] = 0x29
                        if s >= 1026:
                            b[len(sm) - s + 1025] = 0x29
                        sm = bytes(b)
            other = self.genuine(eth, rng.choice("nze"), o["k"], 33, 0)
            for k in o["faults"]:
                sm = net.mutate(rng, k, sm, other, v)
            return op("op_" + v, fill=fill, alias=o["alias"], a=sm[:200000], b=pk), changed or sm != g
        if o["what"] == "sign":
            sk = key["sk"]
            if o["skraw"] == 1:
                sk = net.flip(rng, sk)
            elif o["skraw"] == 2:
                sk = sk[:1] + self.raw(rng, 1280)
            elif o["skraw"] == 3:
                sk = self.raw(rng, 1281)
            elif o["skraw"] == 4:
                i = rng.randrange(1, 1281)
                sk = sk[:i] + self.raw(rng, 1281 - i)
            return op("sg_" + v, rs=rng.getrandbits(50), fail=o["fail"], fill=fill, alias=o["alias"], a=rng.randbytes(o["mlen"]), b=sk), bool(o["skraw"])
        if o["what"] == "seed":
            return op("ks_" + ("n" if v == "n" else "z"), fill=fill, a=self.raw(rng, o["mlen"])), o["mlen"] < 32
        if o["what"] == "pk":
            pk = key["pk_z"] if not o["pkraw"] else net.mutate_pk(rng, key["pk_z"], "z") if o["pkraw"] == 1 else self.raw(rng, 1025) if o["pkraw"] == 2 else b"\x09" + self.raw(rng, 1024)
            return op("pk_e", fill=fill, b=pk), bool(o["pkraw"])
        return op("kp_" + ("n" if v == "n" else "z"), rs=rng.getrandbits(50), fill=fill), False

    def run(self, c):
        out = Outcome(nontrivial=False, key=digest(c), simtime=len(c["ops"]))
        eng = self.eng[c["eth"]]
        log = []
        for n, o in enumerate(c["ops"]):
            try:
                call, hostile = self.call(c["eth"], o)
                r = eng.exec(call)
            except Dead as e:
                t = first_error(str(e))
                out.bad = ("a call leaves the caller's buffers, or does not return", "call %d (%s %s): %s" % (n, o["what"], o["v"], t))
                break
            log.append(r.observable())
            k = "%s %s" % (call["kind"], "accepted" if r.ret == 0 else "refused")
            out.counts[k] = out.counts.get(k, 0) + 1
            if hostile:
                out.nontrivial = True
                for f in o.get("faults") or ["hostile " + o["what"]]:
                    out.faults[f] = out.faults.get(f, 0) + 1
            if o["fail"]:
                out.faults["randombytes fails"] = out.faults.get("randombytes fails", 0) + 1
            if r.inchanged or (r.ret == 0 and call["kind"][0] == "o" and r.len > len(call["a"]) // 2):
                out.bad = ("a call reports more than it was given, or changes its inputs", "call %d (%s %s): length %d of %d, inputs changed %d"
                           % (n, o["what"], o["v"], r.len, len(call["a"] or "") // 2, r.inchanged))
                break
        out.digest = digest(log, out.bad)
        return out

    def shrink(self, c):
        for ops in core.shrink_list(c["ops"], 1):
            yield dict(c, ops=ops)
        for n, o in enumerate(c["ops"]):
            for f in core.shrink_list(o.get("faults") or []):
                yield dict(c, ops=c["ops"][:n] + [dict(o, faults=f)] + c["ops"][n + 1:])
            if o["alias"]:
                yield dict(c, ops=c["ops"][:n] + [dict(o, alias=0)] + c["ops"][n + 1:])
