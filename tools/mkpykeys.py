"""Writes fixtures/pykeys.json: key polynomials for the Python checks (n = 1024 keys take long to make)."""
import json, random, sys
sys.path.insert(0, "/verif")
from concurrent.futures import ProcessPoolExecutor


def make(a):
    n, i = a
    from sim import py
    ntru = py.load("ntrugen")
    r = random.Random("pykey %d %d" % (n, i))
    return n, [list(map(int, p)) for p in ntru.ntru_gen(n, randombytes=r.randbytes)]


if __name__ == "__main__":
    jobs = [(n, i) for n in (1024, 512, 256, 128, 64, 32, 16, 8, 4, 2) for i in range(4 if n <= 256 else 2)]
    out = {}
    with ProcessPoolExecutor(8) as ex:
        for n, polys in ex.map(make, jobs):
            out.setdefault(str(n), []).append(polys)
    json.dump(out, open("/verif/fixtures/pykeys.json", "w"), separators=(",", ":"))
