#!/usr/bin/env python3
"""Makes fixtures/crafted512.json: what dishonest signers can make with their own key (squared norms on the bound and next to it, single large
coefficients). Ran once; the list is committed. Independent of /repo."""
import json
import os
import random
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import numpy as np
from sim import cbuild, pyfalcon, ref
from checks.c01 import load_keys

Q, N, B = 12289, 512, ref.BOUND[512]


def polys(k):
    """f, g, F, G, h of a key of fixtures/keys512.json."""
    def dec(b, bits):
        v = int.from_bytes(b, "big")
        out = [v >> bits * (N - 1 - i) & (1 << bits) - 1 for i in range(N)]
        return [x - (1 << bits) if x >> bits - 1 else x for x in out]
    sk = k["sk"]
    f, g, F = dec(sk[1:385], 6), dec(sk[385:769], 6), dec(sk[769:1281], 8)
    v = int.from_bytes(k["pk_n"][1:], "big")
    h = [v >> 14 * (N - 1 - i) & 0x3fff for i in range(N)]
    G = [int(x) for x in ref.center(ref.mul(h, F))]
    assert (ref.mul(f, G) - ref.mul(g, F) == [Q] + [0] * (N - 1)).all()
    return f, g, F, G, h


def nearest(basis, qt, r, target):
    """Babai's nearest plane: target minus a close lattice vector. basis = (qt r)^T rows."""
    t = target.astype(np.float64)
    out = target.copy()
    for i in range(len(basis) - 1, -1, -1):
        c = int(round(float(out @ qt[:, i]) / r[i, i]))
        if c:
            out = out - c * basis[i]
    return out


def main():
    rng = random.Random(5)
    out = []
    for ki, k in enumerate(load_keys()[:4]):
        f, g, F, G, h = polys(k)
        fa, ga = np.array(f), np.array(g)
        basis = np.array([np.concatenate([ref.rot(np.array(a), i), -ref.rot(np.array(b), i)]) for a, b in ((g, f), (G, F)) for i in range(N)], dtype=np.int64)
        qt, r = np.linalg.qr(basis.T.astype(np.float64))

        def short(point):
            """A short (s0, s1) with s0 + s1 h = point."""
            v = nearest(basis, qt, r, np.concatenate([point, np.zeros(N, dtype=np.int64)]).astype(np.int64))
            return v[:N], v[N:]
        edges = (2046, 2047, 2048, 2049, -2046, -2047, -2048, -2049, 3072, -3073, 4095, 4096, -4096, -4097, 5700, -5700)
        for xof in ("shake", "keccak"):
            want = [("s1", v) for v in edges] + [("s0", v) for v in edges[1::3]]
            want += [("norm", d) for d in (0, 0, 1, 1, 2, -1)] + [("short", 0)]
            for what, val in want:
                for attempt in range(60):
                    m = rng.randbytes(rng.choice([0, 1, 32, 33, 200]))
                    salt = rng.randbytes(40)
                    j = rng.randrange(N)
                    unit = np.zeros(N, dtype=np.int64)
                    if what in ("s0", "s1"):
                        unit[j] = val
                    hm = ref.hash_point(N, m, salt, xof)
                    s0, s1 = short((hm - (ref.mul(unit, h) if what == "s1" else unit)) % Q)
                    if what == "s1":
                        s1 = s1 + unit
                    elif what == "s0":
                        s0 = s0 + unit
                    if what == "norm":
                        x = ref.near_bound(rng, s0, s1, (f, g, F, G), B + val, val > 0, steps=2000)
                        if not x:
                            continue
                        s0, s1 = x[1], x[2]
                        # short steps around the bound until it is met
                        for _ in range(4000):
                            cur = ref.norm(s0, s1)
                            if cur == B + val:
                                break
                            d = 2 * (ref.corr(s0, ga) + ref.corr(s1, -fa))
                            bn = ref.norm(ga, fa)
                            ch = np.concatenate([d + bn, -d + bn])
                            gap = np.abs(cur + ch - (B + val))
                            i = int(np.argmin(gap)) if gap.min() == 0 or rng.random() < .3 else int(rng.choice(np.argsort(gap)[:12]))
                            sgn = 1 if i < N else -1
                            s0 = s0 + sgn * ref.rot(ga, i % N)
                            s1 = s1 - sgn * ref.rot(fa, i % N)
                        if ref.norm(s0, s1) != B + val:
                            continue
                    elif what != "short":
                        for _ in range(400):
                            v = (s0, s1)[what == "s1"]
                            gap = val - int(v[j])
                            if gap == 0:
                                break
                            b = ga if what == "s0" else -fa
                            col = np.array([int(ref.rot(b, i)[j]) for i in range(2 * N)])
                            good = np.argsort(np.abs(col - gap))[:8]
                            i = int(rng.choice(good))
                            s0, s1 = s0 + ref.rot(ga, i), s1 - ref.rot(fa, i)
                        if int((s0, s1)[what == "s1"][j]) != val or ref.norm(s0, s1) > B:
                            continue
                    assert not ((s0 + ref.mul(s1, h) - hm) % Q).any()
                    out.append({"key": ki, "xof": xof, "what": what, "value": val, "m": m.hex(), "salt": salt.hex(), "norm": ref.norm(s0, s1) - B,
                                "s0": pyfalcon.comp([int(x) for x in s0]).hex(), "s1": pyfalcon.comp([int(x) for x in s1]).hex()})
                    print(ki, xof, what, val, attempt, ref.norm(s0, s1), len(out[-1]["s1"]) // 2, flush=True)
                    break
                else:
                    print("none:", ki, xof, what, val, flush=True)
    with open(cbuild.VERIF + "/fixtures/crafted512.json", "w") as fh:
        json.dump(out, fh, indent=0)


if __name__ == "__main__":
    main()
