"""C16: the Python reference and the C library make the same signatures and keys from the same random bytes."""
import contextlib
import ctypes
import json
import random
import numpy as np
from sim import cbuild, core, py, pyfalcon, ref
from sim.core import Outcome, digest
from sim.net import Q
from sim.pyfalcon import decomp, comp
from checks.c01 import load_keys
from checks.c03 import steer

ID = "C16"
QUICK, THOROUGH = 60, 1500
ISOLATE = 240
RULE = ("A run is two machines, one with the C library and one with the Python reference, whose random sources (AES256-CTR-DRBG, each its own "
        "implementation) boot from the same entropy: random, chosen so that the 128-bit counter is about to carry, or found by search (tools/mkrare.py): inputs at which the sampler of the first signing meets a border of its tables or an extreme value, or (tools/mkctr.c) the low half of its ChaCha20 block counter wraps. Both execute the same history of "
        "1-6 requests: sign (NIST and 16-bit encoding, SHAKE256 and Keccak build; keys that are reused, new, or come from the library's key "
        "generation on the way; messages of 0 to 5000 bytes), raw random bytes, signings that are refused (message too long for the hash, altered "
        "key header), crash and reboot of both with the same or another entropy input. Each pair of results is compared. Non-trivial: at least two results were compared.")
MEASURE = "hash of the history and of its results"
TIME_UNIT = "requests"
REAL = ["all C sources of falcon/nistfalcon/src", "pythonref: falcon.py, ntrugen.py, mkgauss.py, samplerz.py, ffsampling.py, fft.py, ntt.py, rng.py, encoding.py, shake.py, keccak_prng.py, drbg/aes256_ctr_drbg.py"]
STUB = ["entropy at boot (drawn)", "polyntt (numpy stand-in)", "Keccak permutation in Python (compiled)", "the Python side reads C's private key through the harness"]
ASSUMPTIONS = ["signatures of over 625 compressed bytes are not compared (Python takes another one, C does not)",
               "where a centre of the sampler is exactly an integer, rounding decides, and the signatures are not compared (about one in 3000)",
               "a key pair that the NTRU solver of the Falcon reference code (csim/refsolve) gives up on is passed over on the Python side"]
N = 512
LIMIT = 4056
cp = ctypes.c_char_p


def build(d):
    return {"lib": cbuild.clib(d, False), "lib_eth": cbuild.clib(d, True), "keccakf": cbuild.keccakf(d), "refsolve": cbuild.refsolve(d)}


class C:
    """The C library with its own random source."""

    def __init__(self, so):
        self.l = ctypes.CDLL(so)
        self.l.randombytes_init.argtypes = [cp, cp, ctypes.c_int]
        self.l.randombytes.argtypes = [ctypes.c_void_p, ctypes.c_ulonglong]
        for f in ("crypto_sign", "zknox_crypto_sign"):
            getattr(self.l, f).argtypes = [ctypes.c_void_p, ctypes.POINTER(ctypes.c_ulonglong), cp, ctypes.c_ulonglong, cp]

    def boot(self, seed, pers):
        self.l.randombytes_init(seed, pers, 256)

    def draw(self, n):
        b = ctypes.create_string_buffer(n + 1)
        r = self.l.randombytes(b, n)
        return b.raw[:n] if r == 0 else None

    def sign(self, z, m, sk):
        b = ctypes.create_string_buffer(len(m) + 4000)
        n = ctypes.c_ulonglong(0)
        r = (self.l.zknox_crypto_sign if z else self.l.crypto_sign)(b, ctypes.byref(n), m, len(m), sk)
        return b.raw[:n.value] if r == 0 else None

    def keypair(self, z):
        pk, sk = ctypes.create_string_buffer(1025), ctypes.create_string_buffer(1281)
        r = (self.l.zknox_crypto_sign_keypair if z else self.l.crypto_sign_keypair)(pk, sk)
        return (pk.raw[:1025 if z else 897], sk.raw) if r == 0 else None


class World:
    def __init__(self, ctx):
        self.py = pyfalcon.Py(ctx["keccakf"])
        self.drbg = py.load("drbg.aes256_ctr_drbg").AES256_CTR_DRBG
        self.ntru_gen = py.load("ntrugen").ntru_gen
        self.c = {False: C(ctx["lib"]), True: C(ctx["lib_eth"])}
        self.keys = load_keys()
        self.sks = {}
        self.refsolve = ctypes.CDLL(ctx["refsolve"]).ref_solvable
        with open(cbuild.VERIF + "/fixtures/rare512.json") as f:
            self.rare = json.load(f)
        with open(cbuild.VERIF + "/fixtures/carry512.json") as f:
            self.carry = json.load(f)

    def close(self):
        pass

    def case(self, rng):
        def entropy():
            x = rng.random()
            if x < .6:
                seed = rng.randbytes(48)
            elif x < .9:
                # the counter carries over 1 to 16 bytes somewhere in the next requests
                k = 8 * rng.randrange(1, 17)
                v = (rng.getrandbits(128) >> k << k) + (1 << k) - 1 - rng.randrange(12) & (1 << 128) - 1
                seed = steer(rng.randbytes(32), v)
            else:
                seed = rng.choice([bytes(48), b"\xff" * 48, bytes(range(48))])
            return [seed.hex(), rng.randbytes(48).hex() if rng.random() < .25 else None]
        ops, pool = [], [entropy()]
        keygen = rng.random() < .03
        x = rng.random()
        at = rng.choice(self.rare) if x < .3 else rng.choice(self.carry) if x < .4 else None
        if at is not None:
            # an entropy input that was found by search: the sampler meets something rare in the first signing
            pool[0] = [rare_entropy(at).hex(), None]
            ops.append(["sign", rng.choice([0, 0, 1]), at % 4, b"rare".ljust(32, b"\0").hex(), False])
        for j in range(rng.choice([1, 2, 3, 4, 6])):
            x = rng.random()
            if j and x < .12:
                pool.append(entropy())
                ops.append(["boot", rng.choice(pool)])
            elif x < .25:
                ops.append(["draw", rng.choice([0, 1, 15, 16, 17, 32, 47, 48, 49, 96, 255, 256, 257, rng.randrange(2000)])])
            else:
                l = rng.choice([0, 1, 31, 32, 33, 95, 96, 97, 135, 136, 137, 231, 232, 233, 1000, rng.randrange(300), rng.randrange(4000)])
                if rng.random() < .1:
                    l = rng.choice([LIMIT - 1, LIMIT, LIMIT + 1, 4096, 5000])
                ops.append(["sign", rng.randrange(2), rng.randrange(len(self.keys)), rng.randbytes(l).hex(), rng.random() < .04])
        if keygen:
            ops.insert(rng.randrange(len(ops) + 1), ["keygen", rng.randrange(2)])
            ops.append(["sign", rng.randrange(2), -1, rng.randbytes(40).hex(), False])
        return {"eth": at is None and rng.random() < .6, "boot": pool[0], "ops": ops}

    def solvable(self, f, g):
        if max(abs(int(x)) for p in (f, g) for x in p) > 31:
            return False
        return bool(self.refsolve(9, *((ctypes.c_int8 * N)(*map(int, p)) for p in (f, g))))

    def pysk(self, i, polys):
        k = i if i >= 0 else None
        if k is None:
            return self.py.falcon.SecretKey(N, [list(p) for p in polys[:4]])
        if k not in self.sks:
            self.sks[k] = self.py.falcon.SecretKey(N, [list(p) for p in polys[:4]])
        return self.sks[k]

    def run(self, c):
        from tools.mkcraft import polys
        out = Outcome(nontrivial=False)
        C = self.c[c["eth"]]
        xof = self.py.xof["keccak" if c["eth"] else "shake"]
        hist = []
        own = None          # key made on the way
        compared = 0

        def boot(e):
            s, p = bytes.fromhex(e[0]), bytes.fromhex(e[1]) if e[1] else b""
            C.boot(s, p or None)
            return self.drbg(s, p)

        def count(k, d=out.counts):
            d[k] = d.get(k, 0) + 1
        src = boot(c["boot"])
        for j, o in enumerate(c["ops"]):
            out.simtime += 1
            where = "request %d of %d (%s build): " % (j + 1, len(c["ops"]), "ETHFALCON" if c["eth"] else "SHAKE256")
            if o[0] == "boot":
                src = boot(o[1])
                count("crash and reboot", out.faults)
            elif o[0] == "draw":
                a = C.draw(o[1])
                try:
                    b = src.random_bytes(o[1])
                except Exception as e:
                    b = e
                compared += 1
                count("raw bytes")
                hist.append(a)
                if a != b:
                    out.bad = ("the random sources differ", where + "%d bytes%s" % (o[1], ", Python raises %r" % b if isinstance(b, Exception) else ""))
            elif o[0] == "keygen":
                kp = C.keypair(o[1])
                if kp is None:
                    out.bad = ("key generation fails", where)
                    break
                count("key generation")
                compared += 1
                seed = src.random_bytes(48)
                prng = self.py.xof["shake"].new(seed)
                prng.flip()
                try:
                    with self.py.quiet():
                        got = self.ntru_gen(N, randombytes=prng.read, logn=9)
                        # the C solver is a heuristic that gives up on a few solvable pairs and takes the next
                        while not self.solvable(got[0], got[1]):
                            count("key pair that the C solver gives up on")
                            got = self.ntru_gen(N, randombytes=prng.read, logn=9)
                except Exception as e:
                    out.bad = ("only one implementation generates a key", where + "Python raises %r" % e)
                    break
                f, g, F = sk_polys(kp[1])
                hist.append(kp[1])
                own = {"sk": kp[1].hex(), "polys": [f, g, F, list(got[3])]}
                if [list(map(int, p)) for p in got[:3]] != [f, g, F]:
                    out.bad = ("the implementations generate different keys from one seed", where + "seed %s" % seed.hex())
            else:
                z, k, m, spoil = o[1], o[2], bytes.fromhex(o[3]), o[4]
                if k >= 0:
                    key, P = self.keys[k], polys(self.keys[k])
                else:
                    if own is None:
                        continue
                    key, P = {"sk": bytes.fromhex(own["sk"])}, own["polys"]
                if spoil:
                    # refused before anything is drawn
                    if C.sign(z, m, b"\x58" + key["sk"][1:]) is not None:
                        continue
                    count("refused key", out.faults)
                    continue
                a = C.sign(z, m, key["sk"])
                try:
                    with self.py.quiet():
                        b = self.pysk(k, P).sign(m, randombytes=src.random_bytes, xof=xof)
                    err = ""
                except Exception as e:
                    b, err = None, " (%r)" % e
                if c["eth"] and len(m) > LIMIT:
                    count("message too long", out.faults)
                hist += [a, b]
                if a is None or b is None:
                    if (a is None) != (b is None):
                        out.bad = ("only one implementation signs", where + "C %s, Python %s%s, message of %d bytes" % (a is not None, b is not None, err, len(m)))
                        break
                    continue
                compared += 1
                count("signatures")
                salt = a[2:42]
                r = decomp(b[41:], N)
                pv = [v for _, v in r[0]] if r else None
                if z:
                    body = a[42 + len(m):]
                    w = np.frombuffer(body[1:1025].ljust(1024, b"\0"), dtype=">u2").astype(np.int64)
                    cv = [int(x) for x in ref.center(w)]
                else:
                    r = decomp(a[42 + len(m) + 1:], N)
                    cv = [v for _, v in r[0]] if r else None
                if salt != b[1:41]:
                    out.bad = ("the implementations draw different salts", where + "C %s, Python %s" % (salt.hex(), b[1:41].hex()))
                elif cv is None or pv is None:
                    out.bad = ("a signature cannot be read", where + "C %s, Python %s" % (cv is not None, pv is not None))
                elif cv != pv:
                    if len(comp(cv)) > 625:
                        count("signatures too long for Python")
                        continue
                    if tie(salt, m, "keccak" if c["eth"] else "shake", P, cv):
                        count("signatures decided by rounding")
                        continue
                    d = sum(x != y for x, y in zip(cv, pv))
                    out.bad = ("the implementations make different signatures", where + "encoding %s, message of %d bytes, %d of 512 coefficients differ" % ("16-bit" if z else "NIST", len(m), d))
            if out.bad:
                break
        out.nontrivial = compared >= 2
        out.digest = digest(hist, c["ops"], c["boot"])
        return out

    def shrink(self, c):
        for ops in core.shrink_list(c["ops"], 1):
            yield dict(c, ops=ops)
        for j, o in enumerate(c["ops"]):
            if o[0] == "sign" and len(o[3]) > 4:
                yield dict(c, ops=c["ops"][:j] + [[o[0], o[1], o[2], o[3][:4], o[4]]] + c["ops"][j + 1:])
            if o[0] == "sign" and o[1]:
                yield dict(c, ops=c["ops"][:j] + [[o[0], 0] + o[2:]] + c["ops"][j + 1:])


def quotient(g, f):
    """g / f mod q, X^512 + 1."""
    r = next(x for x in (pow(y, (Q - 1) // 1024, Q) for y in range(2, 99)) if pow(x, 512, Q) == Q - 1)
    pw = np.array([pow(r, i, Q) for i in range(1024)], dtype=np.int64)
    e = np.outer(np.arange(1, 1024, 2), np.arange(N)) % 1024
    at = lambda a: pw[e] @ (np.array([int(x) for x in a], dtype=np.int64) % Q) % Q
    w = [int(x) * pow(int(y), -1, Q) % Q for x, y in zip(at(g), at(f))]
    return pw[-e.T % 1024] @ np.array(w, dtype=np.int64) % Q * pow(N, -1, Q) % Q


def tie(salt, m, xof, P, s1):
    """Is a centre in the sampler exactly an integer, so that rounding errors decide how it is split into an integer and a fraction?
    The first two centres have the denominator q, the last two |(f, g)|^2 (those between have far greater ones)."""
    f, g = np.array(P[0], dtype=object), np.array(P[1], dtype=object)
    point = np.array(ref.hash_point(N, m, salt, xof), dtype=object)

    def mulx(a, b):
        w = np.convolve(a, b)
        w = np.append(w, [0] * (2 * N - len(w)))
        return w[:N] - w[N:]
    t = mulx(point, f)
    if t[N // 2 - 1] % Q == 0 or t[N - 1] % Q == 0:
        return True
    # s0 + s1 h = point
    s0 = [int(x) for x in ref.center(np.array([int(x) for x in point], dtype=np.int64) - ref.mul(quotient(g, f), [int(x) for x in s1]))]
    nn = sum(int(x) ** 2 for x in f) + sum(int(x) ** 2 for x in g)
    for k in (0, N // 2):
        x = [0] * N
        x[k] = 1
        u, v = mulx(g, np.array(x, dtype=object)), mulx(-f, np.array(x, dtype=object))
        if (sum(int(a) * b for a, b in zip(u, s0)) + sum(int(a) * b for a, b in zip(v, s1))) % nn == 0:
            return True
    return False


def rare_entropy(at):
    return at.to_bytes(8, "little") + bytes(39) + b"\xa5"


def sk_polys(sk):
    def dec(b, bits):
        v = int.from_bytes(b, "big")
        o = [v >> bits * (N - 1 - i) & (1 << bits) - 1 for i in range(N)]
        return [x - (1 << bits) if x >> bits - 1 else x for x in o]
    return dec(sk[1:385], 6), dec(sk[385:769], 6), dec(sk[769:1281], 8)
