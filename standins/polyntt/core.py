import numpy as np

_G = {12289: (7, 2048)}          # generator of the 2048-th roots of unity
_cache = {}


def _brv(x, bits):
    r = 0
    for _ in range(bits):
        r = (r << 1) | (x & 1)
        x >>= 1
    return r


def _tables(q, n):
    key = (q, n)
    t = _cache.get(key)
    if t is None:
        g, order = _G[q]
        assert n & (n - 1) == 0 and 1 <= n <= order // 2
        bits = (order // 2).bit_length() - 1
        w = np.array([pow(g, _brv(i, bits), q) for i in range(n)], dtype=np.int64)
        wi = np.array([pow(int(x), q - 2, q) for x in w], dtype=np.int64)
        t = (w, wi, pow(n, q - 2, q))
        _cache[key] = t
    return t


def ntt(a, q):
    n = len(a)
    w, _, _ = _tables(q, n)
    a = np.array([int(x) % q for x in a], dtype=np.int64)
    m, t = 1, n
    while m < n:
        t //= 2
        b = a.reshape(m, 2, t)
        u = b[:, 0, :]
        v = b[:, 1, :] * w[m:2 * m, None] % q
        a = np.stack(((u + v) % q, (u - v) % q), axis=1).reshape(n)
        m *= 2
    return [int(x) for x in a]


def intt(a, q):
    n = len(a)
    _, wi, ni = _tables(q, n)
    a = np.array([int(x) % q for x in a], dtype=np.int64)
    m, t = n, 1
    while m > 1:
        m //= 2
        b = a.reshape(m, 2, t)
        u = b[:, 0, :]
        v = b[:, 1, :]
        a = np.stack(((u + v) % q, (u - v) * wi[m:2 * m, None] % q), axis=1).reshape(n)
        t *= 2
    return [int(x) * ni % q for x in a]


class _NTT:
    def __init__(self, q):
        self.q = q

    def ntt(self, f):
        return ntt(f, self.q)

    def intt(self, f):
        return intt(f, self.q)

    def vec_add(self, f, g):
        return [(int(x) + int(y)) % self.q for x, y in zip(f, g)]

    def vec_sub(self, f, g):
        return [(int(x) - int(y)) % self.q for x, y in zip(f, g)]

    def vec_mul(self, f, g):
        return [int(x) * int(y) % self.q for x, y in zip(f, g)]

    def vec_div(self, f, g):
        if any(int(y) % self.q == 0 for y in g):
            raise ZeroDivisionError
        return [int(x) * pow(int(y), self.q - 2, self.q) % self.q
                for x, y in zip(f, g)]
