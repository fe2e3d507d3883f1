"""C06: over a faulty network the C library opens exactly what was signed."""
import json
import random
from sim import core, cbuild, net, py, pyfalcon, ref
from sim.csim import Engine, op, Dead
from sim.core import Outcome, digest
from sim.huge import Huge, length
from checks.c01 import load_keys

ID = "C06"
QUICK, THOROUGH = 60, 1500
RULE = ("A run: 1-3 signers sign 1-6 messages (0 to 100000 bytes, around hash block sizes and the ETHFALCON limit; related messages; "
        "in place or not; NIST, 16-bit, Epervier; normal or ETHFALCON build), the network delivers each any number of times, in any "
        "order, to the holders of any of the keys, intact or with 1-3 faults (15 kinds); keys are altered too. Rarely, one message of 2 or 4 GiB and a little is signed and opened, or altered, or must be refused. Non-trivial: a fault "
        "changed what was delivered.")
MEASURE = "hash of the messages, deliveries, faults and results"
TIME_UNIT = "deliveries"
REAL = ["all C sources of falcon/nistfalcon/src (-O2, and in part of the runs with AddressSanitizer)"]
STUB = ["network", "AES (with the messages of 2 GiB and more)", "randombytes (a stream per call)"]
ASSUMPTIONS = ["nobody finds a forgery by chance", "keys of fixtures/keys512.json or freshly made ones"]
LIMIT = 4056


def build(d):
    return dict({(k, e): cbuild.csim(d, k, e) for k in ("plain", "asan") for e in (False, True)}, dir=d)


class World:
    def __init__(self, ctx):
        self.eng = {k: Engine(x, env={"ASAN_OPTIONS": "detect_leaks=0:abort_on_error=0"}) for k, x in ctx.items() if k != "dir"}
        self.huge = Huge(ctx["dir"])
        self.keys = load_keys()
        self.pk_e = {}

    def close(self):
        for e in self.eng.values():
            e.close()

    def case(self, rng):
        if rng.random() < 1 / 6000:
            return {"huge": length(rng), "eth": rng.random() < .5, "v": rng.choice("nze"), "k": rng.randrange(len(self.keys)),
                    "alter": int(rng.random() < .4), "pat": rng.randbytes(rng.randrange(1, 40)).hex()}
        eth = rng.random() < .45
        v = rng.choice("nze")
        nk = rng.choice([1, 2, 3])
        keys = rng.sample(range(len(self.keys)), nk)
        edge = [0, 1, 31, 32, 33, 55, 56, 95, 96, 97, 135, 136, 137, 200, 231, 232, 233, 600, 640, 1000, 4000, LIMIT - 1, LIMIT, LIMIT + 1, 4095, 4096, 4097]
        msgs = []
        for _ in range(rng.choice([1, 2, 2, 3, 4, 6])):
            if msgs and rng.random() < .3:
                m = bytes.fromhex(rng.choice(msgs)["m"])
                m = rng.choice([m, m + b"\0", m[:-1], net.flip(rng, m), m + rng.randbytes(3)])
            else:
                n = rng.choice(edge) if rng.random() < .5 else rng.randrange(300) if rng.random() < .9 else rng.choice([5000, 10000, 65535, 65536, 66000, 100000])
                m = rng.randbytes(n) if rng.random() < .8 else bytes(n)
            msgs.append({"v": v, "k": rng.choice(keys), "m": m.hex(), "rs": rng.getrandbits(50), "alias": rng.choice([0, 0, 0, 1, 2])})
        dels = []
        for _ in range(rng.choice([4, 8, 16])):
            i = rng.randrange(len(msgs))
            d = {"i": i, "k": msgs[i]["k"], "j": rng.randrange(len(msgs)), "faults": [], "pkf": None, "alias": rng.choice([0, 0, 0, 1])}
            x = rng.random()
            if x < .75:
                d["faults"] = [[rng.choice(net.KINDS + ["forge"]), rng.getrandbits(40)] for _ in range(rng.choice([1, 1, 1, 1, 2, 3]))]
            elif x < .82:
                d["k"] = rng.choice(keys)
            elif x < .87:
                d["pkf"] = rng.getrandbits(40)
            dels.append(d)
        return {"eth": eth, "asan": rng.random() < .3, "msgs": msgs, "dels": dels, "fill": rng.getrandbits(30)}

    def public(self, k, v, eng):
        if v == "n":
            return self.keys[k]["pk_n"]
        if v == "z":
            return self.keys[k]["pk_z"]
        if k not in self.pk_e:
            r = eng.exec(op("pk_e", b=self.keys[k]["pk_z"]))
            self.pk_e[k] = r.o1 if r.ret == 0 else self.keys[k]["pk_z"]
        return self.pk_e[k]

    def run_huge(self, c):
        out = Outcome(digest=digest(c), key=digest(c), nontrivial=True)
        refuse = c["eth"] and c["v"] != "e"
        k = self.keys[c["k"]]
        bad, tried = self.huge.run(c["eth"], ["sg_" + c["v"], c["huge"], (k["pk_n"] if c["v"] == "n" else k["pk_z"]).hex(), k["sk"].hex(), c["pat"],
                                              1 if refuse else 2 * c["alter"]])
        out.counts["messages of 2 GiB and more" + ("" if tried else ", not decided")] = 1
        if bad:
            out.bad = ("a long message is treated as another one", "%d bytes, encoding %s%s: %s" % (c["huge"], c["v"], ", ETHFALCON" if c["eth"] else "", bad))
        return out

    def run(self, c):
        if "huge" in c:
            return self.run_huge(c)
        eng = self.eng[("asan" if c["asan"] else "plain", c["eth"])]
        out = Outcome(nontrivial=False)
        log = []
        try:
            self.simulate(c, eng, out, log)
        except Dead as e:
            text = str(e)
            for l in text.splitlines():
                if "ERROR:" in l:
                    text = l
                    break
            out.bad = ("a call crashes", "after %d calls: %s" % (len(log), text[:300]))
        out.digest = digest(log)
        out.key = digest(c)
        out.simtime = len(c["dels"])
        return out

    def simulate(self, c, eng, out, log):
        def count(k):
            out.counts[k] = out.counts.get(k, 0) + 1
        fill = c["fill"]
        wire = []
        sent = {}   # (key, encoding) -> {what may open: message}
        for i, s in enumerate(c["msgs"]):
            m = bytes.fromhex(s["m"])
            sk = self.keys[s["k"]]["sk"]
            fill += 1
            r = eng.exec(op("sg_" + s["v"], rs=s["rs"], fill=fill, alias=s["alias"], a=m, b=sk))
            log.append(r.observable())
            refuse = c["eth"] and s["v"] != "e" and len(m) > LIMIT
            count("messages signed %s%s" % (s["v"], " eth" if c["eth"] else ""))
            if r.inchanged:
                out.bad = out.bad or ("a call modifies its inputs", "signing message %d" % i)
            if refuse:
                count("over-long messages")
                if r.ret == 0 or not r.lensame or (not s["alias"] and not r.o1same):
                    out.bad = out.bad or ("a message that is too long is not refused", "signing %d bytes with ETHFALCON: status %d, buffers unchanged %d %d" % (len(m), r.ret, r.o1same, r.lensame))
                if r.ret:
                    # what an attacker can make: the signature of the beginning of the message
                    r2 = eng.exec(op("sg_" + s["v"], rs=s["rs"], fill=fill, a=m[:LIMIT], b=sk))
                    log.append(r2.observable())
                    if r2.ret:
                        wire.append(rng_bytes(i, 700))
                        continue
                    sent.setdefault((s["k"], s["v"]), {})[self.norm(r2.o1, s["v"])] = m[:LIMIT]
                    x = net.Signed(r2.o1)
                    x.msg = m
                    wire.append(x.join())
                    continue
            if r.ret:
                out.bad = out.bad or ("a message cannot be signed", "%d bytes, encoding %s: status %d" % (len(m), s["v"], r.ret))
                wire.append(rng_bytes(i, 700))
                continue
            if r.o1[42:42 + len(m)] != m and not out.bad:
                # (the interface of NIST: the message is readable in the signed message)
                count("message not in the clear")
            sent.setdefault((s["k"], s["v"]), {})[self.norm(r.o1, s["v"])] = m
            wire.append(r.o1)
        if out.bad:
            return
        for n, d in enumerate(c["dels"]):
            s = c["msgs"][d["i"]]
            v = s["v"]
            b = wire[d["i"]]
            for kind, seed in d["faults"]:
                b2 = self.forge(random.Random(seed), d["k"], b, v, c["eth"]) if kind == "forge" else net.mutate(random.Random(seed), kind, b, wire[d["j"]], v)
                if b2 != b:
                    out.faults["network: " + kind] = out.faults.get("network: " + kind, 0) + 1
                b = b2
            pk = self.public(d["k"], v, eng)
            owner = (d["k"], v)
            if d["pkf"] is not None:
                pk2 = net.mutate_pk(random.Random(d["pkf"]), pk, v)
                if pk2 != pk:
                    owner = None
                    out.faults["network: key altered"] = out.faults.get("network: key altered", 0) + 1
                pk = pk2
            if d["k"] != s["k"]:
                out.faults["network: misdelivered"] = out.faults.get("network: misdelivered", 0) + 1
            fill += 1
            r = eng.exec(op("op_" + v, fill=fill, alias=d["alias"], a=b, b=pk))
            log.append(r.observable())
            m = sent.get(owner, {}).get(self.norm(b, v))
            what = "delivery %d (encoding %s%s, message %d, %d bytes, faults %s%s)" % (
                n, v, ", ETHFALCON" if c["eth"] else "", d["i"], len(bytes.fromhex(s["m"])), [k for k, _ in d["faults"]], ", key altered" if owner is None else "")
            if r.inchanged:
                out.bad = ("a call modifies its inputs", what)
            elif m is not None:
                count("genuine deliveries")
                if r.ret != 0:
                    out.bad = ("a genuine signed message does not open", what + ": status %d" % r.ret)
                elif r.len != len(m) or r.o1 != m:
                    out.bad = ("a genuine signed message opens as another one", what + ": %d bytes come out" % r.len)
            else:
                out.nontrivial = True
                count("altered or misdirected deliveries")
                if r.ret == 0 and not (owner is None and v == "z" and self.same_key(b, self.public(d["k"], v, eng), pk)):
                    out.bad = ("something opens that was not signed", what)
                elif r.ret and (not r.lensame or (not d["alias"] and not r.o1same)):
                    out.bad = ("a failed call changes the caller's buffers", what + ": message unchanged %d, length unchanged %d" % (r.o1same, r.lensame))
            if out.bad:
                return

    def forge(self, rng, k, b, v, eth):
        """Without the private key: a signature whose squared norm is a multiple of 2^32, and a little."""
        x = net.Signed(b)
        if v == "e" or len(b) < 42 or len(x.msg) > LIMIT:
            return b
        w = int.from_bytes(self.keys[k]["pk_n"][1:], "big")
        h = [w >> 14 * (511 - i) & 0x3fff for i in range(512)]
        s1 = ref.wrapped(rng, h, ref.hash_point(512, x.msg, x.nonce, "keccak" if eth else "shake"), v == "n")
        if s1 is None:
            return b
        x.sig = b"\x29" + (pyfalcon.comp(s1) if v == "n" else b"".join((c % net.Q).to_bytes(2, "big") for c in s1))
        return x.join()

    @staticmethod
    def same_key(sm, pk, pk2):
        """A 16-bit public key holds the values of a polynomial at 512 points. Where the signature's polynomial vanishes
        (once in 12289 cases per point), the value in the key does not matter."""
        dec = lambda b: [int.from_bytes(b[i:i + 2], "big") for i in range(1, 1025, 2)]
        if len(pk) != 1025 or len(pk2) != 1025 or pk[0] != pk2[0] or max(dec(pk2)) >= net.Q:
            return False
        changed = sum(x != y for x, y in zip(dec(pk), dec(pk2)))
        sig = net.Signed(sm).sig
        if len(sig) != 1025:
            return False
        poly = py.load("polyntt.poly")
        return sum(x % net.Q == 0 for x in poly.Poly([x % net.Q for x in dec(sig)], net.Q).ntt()) >= changed

    @staticmethod
    def norm(b, v):
        return (b[:-2], len(b)) if v == "e" else b

    def shrink(self, c):
        if "huge" in c:
            return
        for ds in core.shrink_list(c["dels"]):
            yield dict(c, dels=ds)
        used = {d["i"] for d in c["dels"]} | {d["j"] for d in c["dels"]}
        for i in range(len(c["msgs"]) - 1, -1, -1):
            if i not in used and len(c["msgs"]) > 1:
                f = lambda x: x - (x > i)
                yield dict(c, msgs=c["msgs"][:i] + c["msgs"][i + 1:], dels=[dict(d, i=f(d["i"]), j=f(d["j"])) for d in c["dels"]])
        for n, d in enumerate(c["dels"]):
            alt = [dict(d, faults=f) for f in core.shrink_list(d["faults"])]
            if d["alias"]:
                alt.append(dict(d, alias=0))
            if d["j"] != d["i"]:
                alt.append(dict(d, j=d["i"]))
            for x in alt:
                yield dict(c, dels=c["dels"][:n] + [x] + c["dels"][n + 1:])
        for n, s in enumerate(c["msgs"]):
            alt = []
            if s["alias"]:
                alt.append(dict(s, alias=0))
            for k in (2, len(s["m"]) // 4 * 2, len(s["m"]) - 2):
                if 0 <= k < len(s["m"]):
                    alt.append(dict(s, m=s["m"][:k]))
            for x in alt:
                yield dict(c, msgs=c["msgs"][:n] + [x] + c["msgs"][n + 1:])
        if c["asan"]:
            yield dict(c, asan=False)


def rng_bytes(i, n):
    return random.Random(i).randbytes(n)
