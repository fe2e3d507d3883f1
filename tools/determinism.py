"""determinism.py N [CHECK...]: the first N runs of each check, for several VERIF_SEED, in processes that cut them up differently (all runs in
one process; every second run; every third), each process with another PYTHONHASHSEED, several at a time. Every line (case, event log digest, verdict) must be the same."""
import os, subprocess, sys
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
n = int(sys.argv[1])
checks = sys.argv[2:] or ["C%02d" % i for i in range(1, 40) if os.path.exists(V + "/checks/c%02d.py" % i)]
seeds = os.environ.get("SEEDS", "1 2").split()


def part(a):
    c, s, i, start, step = a
    e = dict(os.environ, VERIF_SEED=s, PYTHONHASHSEED=str(i + 1))
    r = subprocess.run([sys.executable, V + "/check.py", c, "--digests", str(start), str(n), str(step)], cwd=V, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    L = [l for l in r.stdout.split("\n") if l]
    return r.returncode, L


bad = 0
for c in checks:
    for s in seeds:
        with ThreadPoolExecutor(6) as ex:
            R = list(ex.map(part, [(c, s, 0, 0, 1), (c, s, 1, 0, 2), (c, s, 2, 1, 2), (c, s, 3, 0, 3), (c, s, 4, 1, 3), (c, s, 5, 2, 3)]))
        one = {l.split()[0]: l for l in R[0][1]}
        diff = [l for rc, L in R[1:] for l in L if one.get(l.split()[0]) != l]
        num = sum(len(L) for _, L in R)
        ok = not diff and not any(rc for rc, _ in R) and num == 3 * n
        bad += not ok
        print(c, "seed", s, "%d runs three times:" % n, "same" if ok else "DIFFERENT", diff[:3], [rc for rc, _ in R], flush=True)
sys.exit(bad > 0)
