"""Writes fixtures/falconjs_zero.json: hashes of the keys and nonces that the committed falcon/falcon.js returns in every process
(KNOWN_FINDINGS.txt, falconjs-zero-state), for the first four calls. Never run by a check."""
import hashlib, itertools, json, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from checks.c01 import load_keys
sk = load_keys()[0]["sk"].hex()
L = set()
for p in itertools.product("ks", repeat=4):
    plan = {"entropy": "1", "ops": [{"kind": "kp"} if x == "k" else {"kind": "sg", "m": "", "sk": sk} for x in p]}
    r = subprocess.run(["node", V + "/csim/falconjs.js", "/repo/falcon/falcon.js"], input=json.dumps(plan), stdout=subprocess.PIPE, text=True, check=True)
    for x in json.loads(r.stdout):
        L |= {hashlib.sha256(bytes.fromhex(v)).hexdigest() for v in ([x["sm"][4:84]] if "sm" in x else [x["pk"], x["sk"]])}
json.dump(sorted(L), open(V + "/fixtures/falconjs_zero.json", "w"), indent=0)
print(len(L))
