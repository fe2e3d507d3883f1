"""Reference arithmetic of Falcon signatures, independent of /repo (numpy), and Byzantine signers that use it."""
import random
import numpy as np
from sim import py, pyfalcon, streams

Q = 12289
BOUND = {2: 101498, 4: 208714, 8: 428865, 16: 892039, 32: 1852696, 64: 3842630, 128: 7959734, 256: 16468416, 512: 34034726, 1024: 70265242}
SIGLEN = {2: 44, 4: 47, 8: 52, 16: 63, 32: 82, 64: 122, 128: 200, 256: 356, 512: 666, 1024: 1280}


def mul(a, b):
    """Product in Z[X]/(X^n+1)."""
    n = len(a)
    c = np.convolve(np.array(a, dtype=np.int64), np.array(b, dtype=np.int64))
    c = np.concatenate([c, np.zeros(2 * n - len(c), dtype=np.int64)])
    return c[:n] - c[n:]


def center(a):
    return (np.array(a, dtype=np.int64) + Q // 2) % Q - Q // 2


def hash_point(n, m, salt, xof):
    if xof == "blake2s":
        salt = streams.hashlib.blake2s(salt).digest()
    st = {"keccak": streams.keccak_prng, "shake": streams.shake_stream, "blake2s": streams.blake2s_prng, "keccaxof": streams.keccaxof}[xof](salt + m)
    pos = [-2]

    def two():
        pos[0] += 2
        return st.get(pos[0], 2)
    return np.array(streams.hash_to_point(two, n), dtype=np.int64)


def norm(*vs):
    return sum(int((np.array(v, dtype=np.int64) ** 2).sum()) for v in vs)


def verify(n, h, m, salt, s1, xof):
    """The verdict of the specification on a decoded signature."""
    s0 = center(hash_point(n, m, salt, xof) - mul(s1, h))
    return norm(s0, s1) <= BOUND[n]


def rot(v, i):
    """X^i v."""
    n = len(v)
    i %= 2 * n
    if i >= n:
        v, i = -v, i - n
    return np.concatenate([-v[n - i:], v[:n - i]]) if i else v


def corr(s, b):
    """All <s, X^i b>, i < n."""
    n = len(s)
    # <s, X^i b> is a coefficient of s times the reversal of b
    r = np.concatenate([b[:1], -b[:0:-1]])
    return mul(s, r)


def wrapped(rng, h, point, small=False):
    """s1 for which the squared norm is above a multiple of 2^32, or of 2^31, by less than the bound (None if not found)."""
    n = len(h)
    m = 1 << 32
    for _ in range(150):
        # the norm of s0 is about n q^2 / 12
        want = rng.choice([2 * m, 2 * m, 3 * m]) - n * Q * Q // 12
        a = int((want / n) ** .5)
        if a > (2047 if small else 6144):
            continue
        s1 = np.array([rng.choice([-1, 1]) * (a + rng.randrange(-2, 3)) for _ in range(n)], dtype=np.int64)
        if small:
            s1 = np.clip(s1, -2047, 2047)
        x = norm(center(point - mul(s1, h)), s1)
        if x % m <= BOUND.get(n, 0) and x > BOUND[n]:
            return [int(v) for v in s1]
    return None


def near_bound(rng, s0, s1, polys, target, above, steps=4000, tries=1):
    """Adds short lattice vectors to (s0, s1) until its squared norm is just above or not above the target. Returns (s0, s1)."""
    f, g, F, G = [np.array(p, dtype=np.int64) for p in polys]
    basis = [(g, -f), (G, -F)]
    s0, s1 = np.array(s0, dtype=np.int64), np.array(s1, dtype=np.int64)
    bn = [norm(*b) for b in basis]
    cur = norm(s0, s1)
    best = None
    for step in range(steps):
        k = 0 if step % 4 or cur < target * .97 else 1
        b = basis[k]
        d = 2 * (corr(s0, b[0]) + corr(s1, b[1]))
        # change of the norm by +X^i b and -X^i b
        ch = np.concatenate([d + bn[k], -d + bn[k]])
        new = cur + ch
        gap = target - new
        ok = gap < 0 if above else gap >= 0
        if cur < target * .985:
            # a random move that gains much
            idx = np.argsort(-ch)[:max(1, len(ch) // 4)]
            i = int(rng.choice(idx))
        else:
            cand = np.where(ok, np.abs(gap), 1 << 60)
            i = int(np.argmin(cand))
            if cand[i] >= (1 << 60) or rng.random() < .1:
                i = int(np.argmin(np.abs(gap)))
        sgn = 1 if i < len(s0) else -1
        j = i % len(s0)
        s0 = s0 + sgn * rot(b[0], j)
        s1 = s1 + sgn * rot(b[1], j)
        cur = int(new[i])
        d = target - cur
        if (d < 0) == above and (best is None or abs(d) < best[0]):
            best = (abs(d), s0, s1)
            if abs(d) < target // 50000:
                break
        if best and step > 200:
            break
    return best


def craft(P, rng, scheme, n, i, m, xof, mode):
    """A signature made by a dishonest signer, as bytes, and whether the specification accepts it (None if none was found).
    above, below: made with the private key, with a norm just above or not above the bound.
    forge: made without the private key, for recovery: the inverse is chosen so that the key comes out."""
    polys = P.polys[str(n)][i]
    sk = P.sk(scheme, n, i)
    h = np.array(list(sk.h), dtype=np.int64)
    salt = rng.randbytes(40)
    hm = hash_point(n, m, salt, xof)
    if scheme != "falcon":
        poly, = [py.load("polyntt.poly")]
        head = bytes([0x30 + n.bit_length() - 1])
    else:
        head = bytes([0x20 + n.bit_length() - 1])
    slen = SIGLEN[n] - 41 if scheme == "falcon" else 2 * SIGLEN[n] - 41
    if mode == "forge":
        s0 = [rng.randrange(-3, 4) for _ in range(n)]
        s1 = [rng.randrange(-3, 4) for _ in range(n)]
        if scheme == "falcon":
            return head + salt + pyfalcon.comp(s1, slen), False
        t = poly.Poly([int(x) % Q for x in hm - np.array(s0)], Q).ntt()
        hn = poly.Poly([int(x) for x in h], Q).ntt()
        if rng.random() < .3:
            s1 = [0] * n
        if any(x % Q == 0 for x in t):
            return None
        inv = [x * pow(y, -1, Q) % Q for x, y in zip(hn, t)]
        return head + salt + pyfalcon.comp(s0 + s1, slen) + b"".join(x.to_bytes(3, "big") for x in inv), False
    # an honest signature first
    for _ in range(4):
        sig = P.sign(scheme, n, i, m, rng.randrange(1 << 40), xof)
        lo, hi = pyfalcon.enc_range(scheme, n, sig)
        salt = sig[1:lo]
        d = pyfalcon.decomp(sig[lo:hi], n if scheme == "falcon" else 2 * n)
        if not d:
            continue
        s1 = [v for _, v in d[0]][-n:]
        hm = hash_point(n, m, salt, xof)
        r = near_bound(rng, center(hm - mul(s1, h)), s1, polys, BOUND[n], mode == "above")
        if not r:
            continue
        s0, s1 = r[1], r[2]
        if ((s0 + mul(s1, h) - hm) % Q).any():
            return None    # the key is not one of these polynomials: C16 looks at that
        a, b = [int(x) for x in s0], [int(x) for x in s1]
        enc = pyfalcon.comp(b if scheme == "falcon" else a + b)
        if len(enc) > slen:
            continue
        sig = head + salt + enc + bytes(slen - len(enc))
        if scheme != "falcon":
            t = poly.Poly(b, Q).ntt()
            if any(x % Q == 0 for x in t):
                continue
            sig += b"".join(pow(int(x), -1, Q).to_bytes(3, "big") for x in t)
        return sig, mode == "below"
    return None
