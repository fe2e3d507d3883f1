"""The Python signers and verifiers of /repo as nodes of a simulation, and what a network can do to their messages."""
import contextlib
import ctypes
import json
import os
import random
from sim import py
from sim.net import Q, flip

VERIF = py.VERIF
SALT = 40
XOFS = ["keccak", "shake", "blake2s", "keccaxof"]
# what the buffer of the XOF can hold besides the salt
ROOM = {"keccak": 4096 - 40, "shake": None, "blake2s": 1024 - 32, "keccaxof": None}
SCHEMES = ["falcon", "rec", "epe"]


class Entropy:
    """os.urandom of the simulation. Installed before the modules of /repo are imported, so that they bind it."""
    real = os.urandom
    stream = None

    @classmethod
    def urandom(cls, n):
        return cls.stream(n) if cls.stream else cls.real(n)

    @classmethod
    def install(cls):
        os.urandom = cls.urandom

    @classmethod
    @contextlib.contextmanager
    def use(cls, stream):
        old, cls.stream = cls.stream, stream
        try:
            yield
        finally:
            cls.stream = old


def fast_keccak(so):
    """Python's Keccak permutation is by far the slowest part. Where it equals Keccak-f[1600] on a sample of states
    (C05 checks the hash functions as they are), run a compiled one in its place."""
    try:
        import numpy as np
        kk = py.load("keccak")
        f = ctypes.CDLL(so).keccakf
        real = kk.Keccak.F1600
        for i in range(3):
            k = kk.Keccak()
            k.state[:] = np.frombuffer(random.Random(i).randbytes(200), dtype=np.uint64)
            st = k.state.copy()
            real(k)
            f(st.ctypes.data_as(ctypes.c_void_p))
            if not (st == k.state).all():
                return False

        def F1600(self):
            st = self.state
            if isinstance(st, np.ndarray) and st.dtype == np.uint64 and st.shape == (25,) and st.flags["C_CONTIGUOUS"]:
                f(ctypes.c_void_p(st.ctypes.data))
            else:
                real(self)
        kk.Keccak.F1600 = F1600
        return True
    except Exception:
        return False


class Py:
    def __init__(self, keccakf=None):
        Entropy.install()
        self.fast = bool(keccakf) and fast_keccak(keccakf)
        self.falcon, self.rec, self.epe, a, b, c, d = py.load("falcon", "falcon_recovery", "falcon_epervier", "keccak_prng", "shake", "blake2s_prng", "keccaxof")
        self.xof = {"keccak": a.KeccakPRNG, "shake": b.SHAKE, "blake2s": c.Blake2sPRNG, "keccaxof": d.KeccaXOF}
        with open(VERIF + "/fixtures/pykeys.json") as f:
            self.polys = json.load(f)
        self.cache = {}
        self.sigs = {}
        self.devnull = open(os.devnull, "w")

    def quiet(self):
        return contextlib.redirect_stdout(self.devnull)

    def new_sk(self, scheme, n, i):
        c = {"falcon": self.falcon.SecretKey, "rec": self.rec.RecoveryModeSecretKey, "epe": self.epe.EpervierSecretKey}[scheme]
        return c(n, polys=[list(p) for p in self.polys[str(n)][i]])

    def sk(self, scheme, n, i):
        k = (scheme, n, i)
        if k not in self.cache:
            self.cache[k] = self.new_sk(*k)
        return self.cache[k]

    def new_pk(self, scheme, n, i):
        sk = self.sk(scheme, n, i)
        if scheme == "falcon":
            return self.falcon.PublicKey(n, list(sk.h))
        if scheme == "rec":
            return self.rec.RecoveryModePublicKey(n, sk.pk)
        return self.epe.EpervierPublicKey(n, sk.pk)

    def sign(self, scheme, n, i, m, rs, xof):
        """Signs with a stream of random bytes of its own; made once per worker."""
        k = (scheme, n, i, m, rs, xof)
        if k not in self.sigs:
            if len(self.sigs) > 4000:
                self.sigs.clear()
            r = random.Random("sign %d" % rs).randbytes
            sk = self.sk(scheme, n, i)
            with self.quiet(), Entropy.use(r):
                # (the sampler on a seeded SHAKE is an order of magnitude slower)
                self.sigs[k] = sk.sign(m, xof=self.xof[xof]) if rs % 8 else sk.sign(m, randombytes=r, xof=self.xof[xof])
        return self.sigs[k]


def enc_range(scheme, n, sig):
    """Where the compressed part is."""
    return (1 + SALT, len(sig) - (0 if scheme == "falcon" else 3 * n))


def canonical(scheme, n, sig):
    """Two signatures may only both be accepted if this is the same."""
    a, b = enc_range(scheme, n, sig)
    if b < a:
        return ("short", bytes(sig))
    return (bytes(sig[1:a]), bytes(sig[a:b]).rstrip(b"\0"), bytes(sig[b:]))


def decomp(b, n):
    """Coefficients of a compressed vector, their sign positions, and the position of the end (None if too short)."""
    bits = "".join(format(x, "08b") for x in b)
    out, p = [], 0
    for _ in range(n):
        if p + 9 > len(bits):
            return None
        start = p
        v = int(bits[p + 1:p + 8], 2)
        p += 8
        e = bits.find("1", p)
        if e < 0:
            return None
        v += 128 * (e - p)
        p = e + 1
        out.append((start, -v if bits[start] == "1" else v))
    return out, p


def comp(vals, slen=None):
    u = "".join(("1" if v < 0 else "0") + format(abs(v) % 128, "07b") + "0" * (abs(v) >> 7) + "1" for v in vals)
    u += "0" * (-len(u) % 8)
    b = int(u, 2).to_bytes(len(u) // 8, "big") if u else b""
    return b if slen is None or len(b) > slen else b + bytes(slen - len(b))


KINDS = ["bit", "byte", "truncate", "extend", "cut", "insert", "splice", "recode", "coef", "negate", "inverse", "pad", "swap", "fill", "message", "long",
         "boundary", "header", "empty", "zeros", "many"]


def mutate(rng, kind, scheme, n, m, sig, om, osig):
    """Apply one network fault to (message, signature); (om, osig): another pair the network has seen."""
    a, b = enc_range(scheme, n, sig)
    b = max(a, b)
    head, salt, enc, inv = sig[:1], sig[1:a], sig[a:b], sig[b:]
    width = n if scheme == "falcon" else 2 * n
    join = lambda: head + salt + enc + inv
    if kind == "bit":
        lo, hi = rng.choice([(1, a), (a, a + 2), (a, b), (max(a, b - 60), b), (b, len(sig)), (a, len(sig))])
        return m, flip(rng, sig, lo, hi)
    if kind == "byte" and sig:
        x = bytearray(sig)
        x[rng.randrange(len(x))] = rng.choice([0, 255, 1, 128, rng.randrange(256)])
        return m, bytes(x)
    if kind == "truncate":
        k = rng.choice([len(sig) - 1, len(sig) - 3, b, a, 1, 0, rng.randrange(len(sig) + 1), len(sig) - 3 * n - 1])
        return m, sig[:max(0, k)]
    if kind == "extend":
        return m, sig + rng.choice([b"\0", b"\0" * 3, b"\1", rng.randbytes(rng.randrange(1, 60)), b"\0" * rng.randrange(1, 300), osig])
    if kind == "cut" and sig:
        i = rng.randrange(len(sig))
        return m, sig[:i] + sig[i + rng.choice([1, 1, 2, 3, rng.randrange(1, 80)]):]
    if kind == "insert":
        i = rng.choice([rng.randrange(len(sig) + 1), 1, a, b])
        return m, sig[:i] + rng.choice([b"\0", rng.randbytes(1), rng.randbytes(rng.randrange(1, 40))]) + sig[i:]
    if kind == "splice":
        c, d = enc_range(scheme, n, osig)
        w = rng.randrange(5)
        if w == 0:
            salt = osig[1:c]
        elif w == 1:
            enc = osig[c:d]
        elif w == 2:
            inv = osig[d:] if d >= c else b""
        elif w == 3:
            return om, sig
        else:
            return m, osig
        return m, join()
    if kind == "recode":
        # other encodings of the same coefficients
        r = decomp(enc, width)
        if not r:
            return m, flip(rng, sig, a, b)
        cs, end = r
        x = bytearray(enc)

        def fl(i):
            if i // 8 < len(x):
                x[i // 8] ^= 0x80 >> i % 8
        zeros = [p for p, v in cs if v == 0]
        w = rng.randrange(5)
        if w == 0 and zeros:
            fl(rng.choice(zeros))
        elif w == 1 and end % 8:
            fl(rng.randrange(end, (end + 7) // 8 * 8))
        elif w == 2 and end // 8 + 1 < len(x):
            fl(rng.randrange(end, 8 * len(x)))
        elif w == 3:
            del x[-1 - rng.randrange(max(1, len(x) - end // 8 - 1)):]
        else:
            fl(rng.choice(cs)[0])
        enc = bytes(x)
        return m, join()
    if kind in ("coef", "negate"):
        r = decomp(enc, width)
        if not r:
            return m, flip(rng, sig, a, b)
        vs = [v for _, v in r[0]]
        if kind == "negate":
            lo, hi = rng.choice([(0, width), (0, width), (0, n), (n, 2 * n)])
            vs[lo:hi] = [-v for v in vs[lo:hi]]
        else:
            for _ in range(rng.choice([1, 1, 1, 2, 5])):
                i = rng.randrange(width)
                vs[i] = rng.choice([vs[i] + 1, vs[i] - 1, -vs[i], vs[i] + Q, vs[i] - Q, 0, vs[i] ^ 1, vs[(i + 1) % width], 2047, 2048, -2048])
        enc = comp(vs, len(enc))
        return m, join()
    if kind == "inverse":
        if scheme == "falcon" or len(inv) < 3:
            return m, flip(rng, sig, a)
        x = bytearray(inv)
        for _ in range(rng.choice([1, 1, n])):
            i = 3 * rng.randrange(len(x) // 3)
            v = int.from_bytes(x[i:i + 3], "big")
            x[i:i + 3] = (rng.choice([v + Q, v + Q * rng.randrange(1, 1300), Q - v, v + 1, v ^ 1 << 23, 0]) & 0xFFFFFF).to_bytes(3, "big")
        inv = bytes(x)
        return m, join()
    if kind == "pad":
        w = rng.randrange(4)
        if w == 0:
            enc = enc.rstrip(b"\0")
        elif w == 1:
            enc = enc[:-1] if enc[-1:] == b"\0" else enc
        elif w == 2:
            enc += bytes(rng.randrange(1, 50))
        else:
            enc = enc.rstrip(b"\0") + bytes(rng.randrange(300)) + rng.choice([b"", b"\1", b"\x80"])
        return m, join()
    if kind == "swap":
        if scheme == "falcon":
            i, j = sorted((rng.randrange(len(sig) + 1), rng.randrange(len(sig) + 1)))
            return m, sig[j:] + sig[i:j] + sig[:i]
        r = decomp(enc, width)
        if r:
            vs = [v for _, v in r[0]]
            enc = comp(vs[n:] + vs[:n], len(enc))
        return m, join()
    if kind == "fill":
        i = rng.randrange(len(sig) + 1)
        j = min(len(sig), i + rng.choice([1, 8, 100, 5000]))
        return m, sig[:i] + rng.choice([b"\0", b"\xff", b"\x80", b"\x01"]) * (j - i) + sig[j:]
    if kind == "message":
        x = bytearray(m)
        w = rng.randrange(6)
        if w <= 1 and x:
            x[rng.choice([0, -1, rng.randrange(len(x))])] ^= 1 << rng.randrange(8)
        elif w == 2:
            x += rng.choice([b"\0", rng.randbytes(1), rng.randbytes(rng.randrange(1, 300))])
        elif w == 3:
            x = x[:-1]
        elif w == 4:
            x = x[1:]
        else:
            x = bytearray(om)
        return bytes(x), sig
    if kind == "long":
        k = rng.choice([1, 32, 1024 - len(m), 4056 - len(m), 4057 - len(m), 4096 - len(m), 5000, 992 - len(m), 993 - len(m)])
        return m + rng.choice([b"\0", b"x"]) * max(1, k), sig
    if kind == "boundary":
        k = rng.choice([1, 2, 8, 39, 40])
        w = rng.randrange(3)
        if w == 0:
            return salt[-k:] + m, head + salt[:-k] + enc + inv
        if w == 1:
            return m[k:], head + salt + m[:k] + enc + inv
        x = salt + m
        return x[40 + k:], head + x[k:40 + k].ljust(40, b"\0") + enc + inv
    if kind == "header":
        return m, bytes([rng.choice([0, 0x29, 0x39, 0x20, 0x30, 0xFF, rng.randrange(256)])]) + sig[1:]
    if kind == "empty":
        return rng.choice([(m, b""), (b"", sig), (b"", b""), (m, sig[:1]), (m, sig[:a])])
    if kind == "zeros":
        vs = [0] * width
        enc = comp(vs, len(enc))
        if rng.random() < .5:
            inv = bytes(len(inv))
        return m, join()
    if kind == "many":
        x = bytearray(sig)
        for _ in range(rng.randrange(2, 40)):
            if x:
                x[rng.randrange(len(x))] ^= 1 << rng.randrange(8)
        return m, bytes(x)
    return m, sig
