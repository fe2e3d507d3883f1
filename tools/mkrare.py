"""mkrare.py FILES...: writes fixtures/rare512.json from the results of a search for seeds with rare events in the sampler and signer.

The search (an instrumented build of the C library in SHAKE mode, 2.25 million signings of 512-degree keys) looked for the entropy inputs at which
a uniform deviate of the Gaussian sampler comes closest to a row of its table from above and below, the rejection step compares most bytes, the sampled
values, centres, norms and coefficients are extreme, or the signature is rejected most often. A line is: category, counter, ... Never run by a check."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
best = {}
def low(c):
    return None
for f in sys.argv[1:]:
    for l in open(f):
        w = l.split()
        if len(w) >= 4:
            best.setdefault(int(w[0]), []).append((int(w[2]), int(w[3]), int(w[1])))
L = set()
for c, v in best.items():
    # all files' winners: they are few
    L |= {a for _, _, a in v}
json.dump(sorted(L), open(V + "/fixtures/rare512.json", "w"))
print(len(best), "categories", len(L), "seeds")
