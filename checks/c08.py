"""C08: independent verifiers, in C and Python, agree on everything that a network delivers to them."""
import json
import random
import numpy as np
from Crypto.Hash import keccak
from sim import cbuild, core, net, pyfalcon, ref
from sim.csim import Dead, Engine, op
from sim.core import Outcome, digest
from sim.net import Q, flip
from checks.c01 import load_keys

ID = "C08"
QUICK, THOROUGH = 60, 1500
ISOLATE = 240
RULE = ("A run: 1-3 signed messages (0 to 5000 bytes, around hash block sizes and the ETHFALCON limit) by C signers (NIST, 16-bit, Epervier), Python "
        "signers (Falcon, recovery, Epervier) or dishonest ones (fixtures: squared norm on the bound and next to it, single coefficients around "
        "2047), broadcast 4-24 times to all verifiers of the family (SHAKE256: C NIST, C 16-bit, Python; Keccak: the same in the ETHFALCON "
        "build; recovery: C Epervier, Python Epervier, Python recovery), intact or with up to 3 alterations of message, salt, coefficients, key "
        "or bytes of the compressed signature. Every verifier gets the values in its own encoding. Non-trivial: a delivery altered.")
MEASURE = "hash of the deliveries and verdicts"
TIME_UNIT = "deliveries"
REAL = ["all C sources of falcon/nistfalcon/src", "pythonref: falcon.py, falcon_recovery.py, falcon_epervier.py, encoding.py, and the hash and PRNG modules"]
STUB = ["network and transcoders between the encodings (sim/pyfalcon.py, sim/ref.py)", "randomness (seeded)", "polyntt (numpy stand-in)", "Keccak permutation in Python (compiled)"]
ASSUMPTIONS = ["a verifier is asked only where the values can be written in its encoding (NIST: coefficients of at most 2047; Python: at most 666 bytes)",
               "the header byte and padding, which the encodings treat differently, are written as each verifier wants them"]
N = 512
LIMIT = 4056
FAMS = {"shake": ["nist", "sixteen", "python"], "keccak": ["nist", "sixteen", "python"], "recover": ["epervier", "python epervier", "python recovery"]}


def build(d):
    return {"plain": cbuild.csim(d, "plain", False), "eth": cbuild.csim(d, "plain", True), "keccakf": cbuild.keccakf(d)}


def pk_nist(h):
    v = 0
    for x in h:
        v = v << 14 | int(x)
    return b"\x09" + v.to_bytes(N * 14 // 8, "big")


def pk_16(t):
    return b"\x09" + b"".join(int(x).to_bytes(2, "big") for x in t)


def coefs16(v):
    return b"".join((int(x) % Q).to_bytes(2, "big") for x in v)


class World:
    def __init__(self, ctx):
        self.eng = {"shake": Engine(ctx["plain"]), "keccak": Engine(ctx["eth"])}
        self.py = pyfalcon.Py(ctx["keccakf"])
        from tools.mkcraft import polys
        self.keys = load_keys()
        self.polys = [polys(k) for k in self.keys]
        with open(cbuild.VERIF + "/fixtures/crafted512.json") as f:
            self.crafts = json.load(f)
        self.pysk = {}
        self.cache = {}
        self.fill = 0

    def close(self):
        for e in self.eng.values():
            e.close()

    def case(self, rng):
        fam = rng.choice(["shake", "shake", "keccak", "keccak", "recover"])
        edge = [0, 1, 31, 32, 33, 95, 96, 97, 135, 136, 137, 231, 232, 1000]
        msgs = []
        for _ in range(rng.choice([1, 1, 2, 3])):
            l = rng.choice(edge) if rng.random() < .6 else rng.randrange(300)
            if rng.random() < .08:
                l = rng.choice([LIMIT - 1, LIMIT, LIMIT + 1, 4095, 4096, 4097, 5000])
            x = rng.random()
            by = "craft" if x < .3 else ("python" if x < .42 else "c")
            msgs.append({"by": by, "k": rng.randrange(len(self.keys)) if by == "c" else rng.randrange(2), "m": rng.randbytes(l).hex(), "rs": rng.getrandbits(40), "how": rng.randrange(2)})
        dels = []
        for _ in range(rng.choice([4, 8, 12, 24])):
            f = []
            x = rng.random()
            if x > .15:
                for _ in range(rng.choice([1, 1, 1, 1, 2, 3])):
                    f.append([rng.choice(["coef", "coef", "coef", "q", "edge", "negate", "zero", "swap", "salt", "salt", "message", "message", "limit", "key", "key", "keyzero", "other key", "other",
                                          "bytes", "bytes", "bytes", "bytes", "pad", "minus zero", "short", "tiny", "rotate", "wrap"]), rng.getrandbits(40)])
            dels.append({"i": rng.randrange(len(msgs)), "j": rng.randrange(len(msgs)), "f": f})
        return {"fam": fam, "msgs": msgs, "dels": dels}

    def python_key(self, k, scheme):
        if (k, scheme) not in self.pysk:
            P = self.py
            c = {"falcon": P.falcon.SecretKey, "rec": P.rec.RecoveryModeSecretKey, "epe": P.epe.EpervierSecretKey}[scheme]
            self.pysk[k, scheme] = c(N, polys=[list(p) for p in self.polys[k][:4]])
        return self.pysk[k, scheme]

    def signed(self, fam, s):
        """-> dict of h, m, salt, s0 (for recover), s1, or a text: what went wrong."""
        key = (fam, s["by"], s["k"], s["m"], s["rs"], s["how"])
        if key in self.cache:
            return self.cache[key]
        if len(self.cache) > 2000:
            self.cache.clear()
        v = self.cache[key] = self.sign(fam, s)
        return v

    def sign(self, fam, s):
        m = bytes.fromhex(s["m"])
        h = self.polys[s["k"]][4]
        w = {"h": list(h), "m": m, "honest": True}
        if s["by"] == "craft":
            xof = "shake" if fam == "recover" else fam
            cs = [c for c in self.crafts if c["xof"] == xof]
            c = cs[s["rs"] % len(cs)]
            w.update(h=list(self.polys[c["key"]][4]), m=bytes.fromhex(c["m"]), salt=bytes.fromhex(c["salt"]), honest=False,
                     s0=[x for _, x in pyfalcon.decomp(bytes.fromhex(c["s0"]), N)[0]], s1=[x for _, x in pyfalcon.decomp(bytes.fromhex(c["s1"]), N)[0]])
            return w
        if s["by"] == "c":
            e = self.eng["keccak" if fam == "keccak" else "shake"]
            enc = "e" if fam == "recover" else "nz"[s["how"]]
            self.fill += 1
            r = e.exec(op("sg_" + enc, rs=s["rs"], fill=self.fill, a=m, b=self.keys[s["k"]]["sk"]))
            if r.ret:
                return None if fam == "keccak" and len(m) > LIMIT else "the C signer refuses %d bytes" % len(m)
            x = net.Signed(r.o1)
            w["salt"] = x.nonce
            if enc == "n":
                d = pyfalcon.decomp(x.sig[1:], N)
                if d is None:
                    return "the C signer writes an invalid signature"
                w["s1"] = [c for _, c in d[0]]
            else:
                b = x.sig
                dec = lambda o: [int(c) for c in ref.center([int.from_bytes(b[o + 2 * i:o + 2 * i + 2], "big") for i in range(N)])]
                if len(b) < (2052 if enc == "e" else 1025):
                    return "the C signer writes an invalid signature"
                if enc == "e":
                    w["s0"], w["s1"] = dec(1), dec(1026)
                else:
                    w["s1"] = dec(1)
            return w
        scheme = "falcon" if fam != "recover" else ["rec", "epe"][s["how"]]
        P = self.py
        r = random.Random("c08 %d" % s["rs"]).randbytes
        try:
            with P.quiet(), pyfalcon.Entropy.use(r):
                sig = self.python_key(s["k"], scheme).sign(m, xof=P.xof["shake" if fam == "recover" else fam])
        except Exception as e:
            return None if fam == "keccak" and len(m) > LIMIT else "the Python signer raises %s" % type(e).__name__
        lo, hi = pyfalcon.enc_range(scheme, N, sig)
        d = pyfalcon.decomp(sig[lo:hi], N if scheme == "falcon" else 2 * N)
        if d is None:
            return "the Python signer writes an invalid signature"
        v = [c for _, c in d[0]]
        w.update(salt=sig[1:lo], s1=v[-N:])
        if scheme != "falcon":
            w["s0"] = v[:N]
        return w

    def alter(self, w, o, fam, how, r):
        """One alteration. w: h, m, salt, s0, s1, raw (compressed bytes that say something else than the values, or None)."""
        rng = random.Random(r)
        w = dict(w)
        names = ["s1", "s1", "s0"] if fam == "recover" else ["s1"]
        n = rng.choice(names)
        i = rng.choice([0, N - 1, rng.randrange(N)])
        if how in ("coef", "q", "edge", "negate", "zero", "swap", "short", "tiny", "rotate"):
            v = list(w[n])
            if how == "coef":
                for _ in range(rng.choice([1, 1, 2, 8])):
                    v[i] += rng.choice([-1, 1, 2, -2, 1024, -1024])
                    i = rng.randrange(N)
            elif how == "q":
                v[i] += rng.choice([-Q, Q])
            elif how == "edge":
                v[i] = rng.choice([-1, 1]) * rng.choice([2046, 2047, 2048, 4096, 5833, 5834, 6143, 6144, 6145, 8191, 12288, 12289])
            elif how == "negate":
                v = [-x for x in v] if rng.random() < .5 else v[:i] + [-v[i]] + v[i + 1:]
            elif how == "zero":
                v = [0] * N if rng.random() < .5 else v[:i] + [0] + v[i + 1:]
            elif how == "swap":
                if fam == "recover" and rng.random() < .5:
                    w["s0"], w["s1"] = w["s1"], w["s0"]
                    return w
                v[i], v[i - 1] = v[i - 1], v[i]
            elif how == "short":
                v = [int(x * .5) for x in v]
            elif how == "tiny":
                v = [rng.randrange(-1, 2) for _ in v]
            else:
                v = v[i:] + v[:i]
            w[n] = v
        elif how == "salt":
            w["salt"] = flip(rng, w["salt"]) if rng.random() < .8 else o["salt"]
        elif how == "message":
            m = w["m"]
            w["m"] = rng.choice([flip(rng, m), m + b"\0", m[:-1], b"\0" + m, m[1:], m + rng.randbytes(rng.randrange(1, 200)), o["m"]])
        elif how == "limit":
            w["m"] = (w["m"] + bytes(5000))[:rng.choice([LIMIT - 1, LIMIT, LIMIT + 1, LIMIT + 2, 4095, 4096, 4097, 4136, 4137])]
        elif how == "key":
            h = list(w["h"])
            h[i] = rng.choice([(h[i] + 1) % Q, (h[i] - 1) % Q, 0, Q - 1, rng.randrange(Q), (h[i] ^ 1 << rng.randrange(13)) % Q])
            w["h"] = h
        elif how == "keyzero":
            w["h"] = rng.choice([[0] * N, [1] + [0] * (N - 1), [Q - 1] * N, [(-x) % Q for x in w["h"]]])
        elif how == "other key":
            w["h"] = list(self.polys[rng.randrange(len(self.polys))][4])
        elif how == "other":
            k = rng.choice(["salt", "m", "s1", "h"])
            w[k] = o[k]
        elif how == "wrap" and fam != "recover":
            s1 = ref.wrapped(rng, w["h"], ref.hash_point(N, w["m"], w["salt"], fam), rng.random() < .6)
            if s1:
                w["s1"] = s1
                w.pop("raw", None)
        elif how == "minus zero" and fam != "recover":
            v = list(w["s1"])
            zeros = [p for p, x in net.comp_bits(pyfalcon.comp(v))[0] if x == 0]
            if zeros:
                w["raw"] = net.flipbit(pyfalcon.comp(v), rng.choice(zeros))
        elif how in ("bytes", "pad") and fam != "recover":
            b = w.get("raw") or pyfalcon.comp(w["s1"])
            if how == "pad":
                b = rng.choice([b + b"\1", b + b"\x80", b[:-1], b[:-1] + bytes([b[-1] | 1]), b[:rng.randrange(len(b))]])
            else:
                for _ in range(rng.choice([1, 1, 1, 2, 4])):
                    x = rng.randrange(5)
                    if x == 4:
                        b = net.flipbit(b, rng.choice([p for p, _ in net.comp_bits(b)[0]] or [0]))
                    else:
                        b = flip(rng, b, *[(0, len(b)), (0, 3), (max(0, len(b) - 3), len(b)), (0, len(b))][x])
            w["raw"] = b
        return w

    def verdicts(self, fam, w):
        """name -> True or False, or a text if something else happened"""
        out = {}
        h, m, salt = w["h"], w["m"], w["salt"]
        P = self.py
        raw = w.get("raw")
        s1 = w["s1"]
        if raw is not None:
            raw = raw.rstrip(b"\0")
            d = pyfalcon.decomp(raw, N)
            s1 = [x for _, x in d[0]] if d else None
            strict = d is not None and pyfalcon.comp(s1) == raw
        eng = self.eng["keccak" if fam == "keccak" else "shake"]

        def c(kind, sig, pk):
            self.fill += 1
            b = (len(sig)).to_bytes(2, "big") + salt + m + sig
            r = eng.exec(op("op_" + kind, fill=self.fill, a=b, b=pk))
            return False if r.ret else True if r.len == len(m) and r.o1 == m else "another message comes out"

        def python(f):
            try:
                with P.quiet():
                    v = f()
                return bool(v) if v is True or v is False or v in (0, 1) else "returns %r" % (v,)
            except Exception as e:
                return "raises %s" % type(e).__name__
        tohash = {"recover": "shake"}.get(fam, fam)
        small = lambda v, b: v is not None and max(abs(x) for x in v) <= b
        # the definition
        if s1 is None or raw is not None and not strict or fam == "keccak" and len(m) > LIMIT:
            out["definition"] = False
        elif fam != "recover":
            out["definition"] = ref.verify(N, h, m, salt, s1, fam)
        else:
            s0 = w["s0"]
            d = ref.hash_point(N, m, salt, "shake") - np.array(s0) - ref.mul(s1, h)
            out["definition"] = not (d % Q).any() and ref.norm(s0, s1) <= ref.BOUND[N] and 0 not in self.ntt([x % Q for x in s1])
        if fam != "recover":
            enc = raw if raw is not None else pyfalcon.comp(s1)
            if raw is not None and not strict or small(s1, 2047):
                out["nist"] = c("n", b"\x29" + enc, pk_nist(h))
            if (raw is None or strict) and small(s1, 6144):
                out["sixteen"] = c("z", b"\x29" + coefs16(s1), pk_16(self.ntt(h)))
            if len(enc) <= 666 - 41:
                sig = b"\x39" + salt + enc + bytes(666 - 41 - len(enc))
                out["python"] = python(lambda: P.falcon.PublicKey(N, list(h)).verify(m, sig, xof=P.xof[tohash]))
                out["python, key from bytes"] = python(lambda: P.falcon.PublicKey.from_bytes(pk_nist(h)).verify(m, sig, xof=P.xof[tohash])) if hasattr(P.falcon.PublicKey, "from_bytes") else out["python"]
        else:
            if small(s0, 6144) and small(s1, 6144):
                out["epervier"] = c("e", b"\x29" + coefs16(s0) + b"\x29" + coefs16(s1) + b"\0\0", pk_16(self.ntt(h)))
            t = self.ntt([x % Q for x in s1])
            slen = 2 * 666 - 41
            enc = pyfalcon.comp(list(s0) + list(s1))
            if 0 not in t and len(enc) <= slen:
                inv = b"".join(pow(int(x), -1, Q).to_bytes(3, "big") for x in t)
                sig = b"\x39" + salt + enc + bytes(slen - len(enc)) + inv
                for name, mod, a in (("python epervier", P.epe, "EpervierPublicKey"), ("python recovery", P.rec, "RecoveryModePublicKey")):
                    pk = self.recovery_key(a, h)
                    if pk is not None:
                        out[name] = python(lambda: getattr(mod, a)(N, pk).verify(m, sig, xof=P.xof["shake"]))
        return out, s1

    def recovery_key(self, a, h):
        """The hash of the key, as the key classes compute it; keys that no one made have none."""
        scheme = "epe" if a[0] == "E" else "rec"
        for k in range(len(self.keys)):
            if list(self.polys[k][4]) == list(h):
                return self.python_key(k, scheme).pk
        # a key that nobody made: its address by the definition, if that holds for the others
        def address(h):
            k = keccak.new(digest_bits=256)
            k.update(b"".join(int(x).to_bytes(32, "big") for x in (self.ntt(h) if scheme == "epe" else h)))
            return int.from_bytes(k.digest()[-20:], "big")
        return address(h) if address(self.polys[0][4]) == self.python_key(0, scheme).pk else None

    def ntt(self, h):
        from standins.polyntt.core import ntt
        return ntt([int(x) for x in h], Q)

    def run(self, case):
        out = Outcome(nontrivial=False)
        log = []
        try:
            self.simulate(case, out, log)
        except Dead as e:
            out.bad = ("a call crashes", str(e)[:300])
        out.digest = digest(log, out.bad)
        out.key = digest(case)
        out.simtime = len(case["dels"])
        return out

    def simulate(self, case, out, log):
        fam = case["fam"]
        sent = []
        for s in case["msgs"]:
            if fam == "recover" and s["by"] == "c" and s["k"] > 1:
                s = dict(s, k=s["k"] % 2)
            w = self.signed(fam, s)
            core.add(out.counts, {"signed: %s %s" % (fam, s["by"]): 1})
            if isinstance(w, str):
                out.bad = ("signing fails", w)
                return
            if w:
                sent.append(w)
        if not sent:
            return
        for t, d in enumerate(case["dels"]):
            w = dict(sent[d["i"] % len(sent)])
            o = sent[d["j"] % len(sent)]
            for how, r in d["f"]:
                w = self.alter(w, o, fam, how, r)
                core.add(out.faults, {"network: " + how: 1})
            v, s1 = self.verdicts(fam, w)
            log.append(sorted(v.items()))
            what = "delivery %d (%s hash, message of %d bytes, %s signer, altered: %s): %s" % (
                t, fam, len(w["m"]), "honest" if w["honest"] else "dishonest", [k for k, _ in d["f"]] or "no", ", ".join("%s: %s" % (a, {True: "valid", False: "invalid"}.get(b, b)) for a, b in v.items()))
            if d["f"]:
                out.nontrivial = True
            vals = set(v.values())
            core.add(out.counts, {"all valid" if vals == {True} else "nobody asked" if len(v) == 1 else "all invalid" if vals == {False} else "mixed": 1})
            if any(isinstance(x, str) for x in vals):
                out.bad = ("a verifier gives no verdict", what)
            elif len(vals) > 1:
                out.bad = ("verifiers disagree", what)
            elif not d["f"] and w["honest"] and vals == {False}:
                out.bad = ("a genuine signature is refused", what)
            if out.bad:
                return

    def shrink(self, c):
        for x in core.shrink_list(c["dels"], 1):
            yield dict(c, dels=x)
        for t, d in enumerate(c["dels"]):
            for f in core.shrink_list(d["f"], 0):
                yield dict(c, dels=c["dels"][:t] + [dict(d, f=f)] + c["dels"][t + 1:])
        if len(c["msgs"]) > 1:
            for i in range(len(c["msgs"])):
                if all(d["i"] == i and d["j"] == i for d in c["dels"]):
                    yield dict(c, msgs=[c["msgs"][i]], dels=[dict(d, i=0, j=0) for d in c["dels"]])
        for t, d in enumerate(c["dels"]):
            if d["j"] != d["i"]:
                yield dict(c, dels=c["dels"][:t] + [dict(d, j=d["i"])] + c["dels"][t + 1:])
        for i, s in enumerate(c["msgs"]):
            if s["by"] != "craft" and len(s["m"]) > 2:
                yield dict(c, msgs=c["msgs"][:i] + [dict(s, m="00")] + c["msgs"][i + 1:])
