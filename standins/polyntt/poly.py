from .ntt_iterative import NTTIterative


class Poly:
    """Element of Z_q[X]/(X^n+1); the constructor keeps the coefficients as given."""

    def __init__(self, coeffs, q, ntt=NTTIterative):
        self.coeffs = coeffs
        self.q = q
        self.NTT = ntt(q)

    def _new(self, coeffs):
        p = Poly.__new__(Poly)
        p.coeffs, p.q, p.NTT = coeffs, self.q, self.NTT
        return p

    def __repr__(self):
        return str(self.coeffs)

    def __eq__(self, other):
        return self.q == other.q and len(self.coeffs) == len(other.coeffs) and all(
            (x - y) % self.q == 0 for x, y in zip(self.coeffs, other.coeffs))

    def __add__(self, other):
        return self._new([(x + y) % self.q for x, y in zip(self.coeffs, other.coeffs)])

    def __neg__(self):
        return self._new([-x % self.q for x in self.coeffs])

    def __sub__(self, other):
        return self._new([(x - y) % self.q for x, y in zip(self.coeffs, other.coeffs)])

    def __mul__(self, other):
        t = self.NTT
        return self._new(t.intt(t.vec_mul(t.ntt(self.coeffs), t.ntt(other.coeffs))))

    def __truediv__(self, other):
        t = self.NTT
        return self._new(t.intt(t.vec_div(t.ntt(self.coeffs), t.ntt(other.coeffs))))

    def inverse(self):
        t = self.NTT
        return self._new(t.intt(t.vec_div([1] * len(self.coeffs), t.ntt(self.coeffs))))

    def ntt(self):
        return self.NTT.ntt(self.coeffs)
