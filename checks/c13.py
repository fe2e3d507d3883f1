"""C13: deterministic signing of the command line, over runs of the program."""
import os
import random
import re
import shutil
import tempfile
from sim import cli, core
from sim.core import Outcome, digest
from sim.net import flip

ID = "C13"
QUICK, THOROUGH = 60, 1500
ISOLATE = 240
RULE = ("A run: 1-4 key files (four versions; ring degree 512 from genkeys, smaller ones for speed; private keys with the same public key among "
        "them) and 3-14 commands sign, sign_tx and verify, each a start of the program with other system entropy, hash seed, directory and notation "
        "of the arguments, some killed or failing on the way. The messages are related (prefixes, zeros in front and behind, one bit, 16 to "
        "3000 bytes, around hash blocks). The oracle keeps every salt and all bytes drawn. Non-trivial: a repeated and two different signings.")
MEASURE = "hash of the commands and the signatures"
TIME_UNIT = "program starts"
REAL = ["pythonref/sign_cli.py (whole commands) and all it uses"]
STUB = ["os.urandom (another seeded stream in every program start)", "ntru_gen (keys from fixtures/pykeys.json)", "polyntt (numpy stand-in)", "Keccak permutation (compiled)"]
ASSUMPTIONS = ["a private key is identified by f and g", "a key file is used with one version only"]
VERSIONS = ["falcon", "ethfalcon", "falconrec", "epervier"]
WINDOW = 12


def build(d):
    return cli.build(d)


class World:
    def __init__(self, ctx):
        # two interpreters with different hash seeds
        self.srv = [cli.Server(ctx, env={"PYTHONHASHSEED": str(s)}) for s in (1, 77)]
        self.dir = tempfile.mkdtemp(prefix="verif-c13-")
        self.files = {}
        self.small = None

    def close(self):
        for s in self.srv:
            s.close()
        shutil.rmtree(self.dir, ignore_errors=True)

    def case(self, rng):
        n = rng.choice([512, 512, 64, 64, 32, 128])
        v = rng.choice(VERSIONS)
        i = rng.randrange(2)
        keys = [[n, v, i, 0]]
        for _ in range(rng.choice([0, 1, 1, 2, 3])):
            x = rng.random()
            k = [n, v, i, rng.choice([n, n, 1, n + 1, rng.randrange(1, 2 * n)])] if x < .6 else [n, v, 1 - i, 0]
            if k not in keys:
                keys.append(k)
        # (Keccak takes 4096 bytes at most, with the salt)
        most = 65535 if v in ("falcon", "epervier") else 4001
        m = rng.randbytes(rng.choice([1, 1, 2, 20, 32, 32, 33, 63, 64, 65, 100, 134, 135, 136, 137, 200, 272, rng.randrange(1, 600), rng.choice([1000, 3000, 4000, 10000, 65535])]))[:most]
        pool = [m]
        for _ in range(rng.choice([0, 1, 2, 3])):
            b = rng.choice(pool)
            w = rng.randrange(9)
            b = [b + b"\0", b"\0" + b, b[:-1], b[1:], flip(rng, b), bytes([b[0] ^ 0x80]) + b[1:], b[:-1] + bytes([b[-1] ^ 1]), b + b, rng.randbytes(len(b))][w]
            if b and b not in pool:
                pool.append(b[:most])
        steps = []
        txs = rng.choice([.15, .15, .7])
        for _ in range(rng.choice([3, 4, 5, 6, 8, 14])):
            x = rng.random()
            s = {"do": "sign", "k": rng.randrange(len(keys)), "m": rng.choice(pool).hex(), "entropy": rng.getrandbits(30), "srv": rng.randrange(2),
                 "form": rng.randrange(4), "dir": rng.randrange(2), "fail": None}
            if v in ("falcon", "ethfalcon") and n == 512 and x < txs:
                tx = self.related_tx(rng, [p["tx"] for p in steps if "tx" in p], pool)
                s.update(do="sign_tx", tx=tx)
            elif x < .3:
                s["fail"] = [rng.randrange(12), 28, -1]
            steps.append(s)
        return {"keys": keys, "steps": steps}

    def related_tx(self, rng, before, pool):
        """nonce, to, data, value: often one of before with one field slightly changed."""
        if not before or rng.random() < .25:
            return [rng.choice([0, 1, 2, 255]), rng.choice([0, 1, 0xabcdef, (1 << 160) - 1]), rng.choice(pool)[:200].hex(), rng.choice([0, 1, 10 ** 18])]
        tx = list(rng.choice(before))
        i = rng.randrange(4)
        if i == 2:
            b = bytes.fromhex(tx[2])
            tx[2] = rng.choice([b + b"\0", b"\0" + b, b[:-1], flip(rng, b), bytes([b[0] ^ 1]) + b[1:], rng.choice(pool)[:200]]).hex() or "00"
        else:
            bits = [256, 160, 0, 256][i]
            tx[i] = rng.choice([tx[i] ^ 1 << rng.randrange(bits), tx[i] ^ 1 << bits - 1, (tx[i] << 8) % (1 << bits), tx[i] >> 8])
        if rng.random() < .1:
            tx[0], tx[3] = tx[3], tx[0]
        return tx

    def keyfile(self, k):
        """The files of a key: (private, public), or None."""
        n, v, i, r = k
        kk = (n, v, i, r)
        if kk not in self.files:
            d = self.dir + "/make"
            os.makedirs(d, exist_ok=True)
            cli.write_dir(d, {})
            a = self.srv[0].command(["genkeys", "--version", v], d, key=[i, r], **({"save": [n, v]} if n != 512 else {}))
            f = cli.read_dir(d)
            f = {x: c for x, c in f.items() if not x.endswith(".tmp")}
            self.files[kk] = f if a["code"] == 0 and "private_key.pem" in f and "public_key.pem" in f else None
        return self.files[kk]

    def run(self, case):
        out = Outcome(nontrivial=False)
        log = []
        keys = []
        for k in case["keys"]:
            f = self.keyfile(k)
            if f is None and k[0] != 512:
                # this way to save a key does not exist any more
                core.add(out.counts, {"degree 512 in place of a smaller one": 1})
                f = self.keyfile([512] + k[1:])
            if f is None:
                out.bad = ("keys cannot be saved", "version %s" % k[1])
                out.digest = digest(out.bad)
                return out
            keys.append(f)
        dirs = [self.dir + "/a", self.dir + "/b c"]
        for j, d in enumerate(dirs):
            os.makedirs(d, exist_ok=True)
            cli.write_dir(d, {})
            for i, f in enumerate(keys):
                for x, c in f.items():
                    with open("%s/%d-%s" % (d, i, x), "wb") as h:
                        h.write(c)
        same, salts, windows = {}, {}, {}
        repeats = 0

        def note(k, m, sig, draws, what):
            """A signature of m with key k, as something to compare. -> violation"""
            nonlocal repeats
            who = (tuple(case["keys"][k]), m)
            if who in same:
                repeats += 1
                if same[who] != sig:
                    return ("the same data and key give another signature", what)
                return None
            same[who] = sig
            salt = sig[0]
            if salt in salts:
                return ("different data or keys share a salt", "%s, and key %s with %s" % (what, salts[salt][0], salts[salt][1][:80]))
            salts[salt] = who
            b = bytes.fromhex("".join(draws)) if draws else salt
            if draws and len(b) < 40 + 32:
                return ("the sampling seed is not drawn", "%s: only %d bytes were drawn" % (what, len(b)))
            mine = set()
            for p in range(len(b) - WINDOW + 1):
                w = b[p:p + WINDOW]
                if w in windows:
                    return ("different data or keys share random bytes", "%s, and key %s with %s: at byte %d of %d drawn" % (what, windows[w][0], windows[w][1][:80], p, len(b)))
                mine.add(w)
            for w in mine:
                windows[w] = who
            return None

        for t, s in enumerate(case["steps"]):
            srv, d = self.srv[s["srv"]], dirs[s["dir"]]
            priv = "%d-private_key.pem" % s["k"]
            if s["form"] & 1:
                priv = os.path.join(d, priv)
            key = case["keys"][s["k"]]
            data = s["m"].upper() if s["form"] & 2 else s["m"]
            try:
                os.unlink(d + "/sig")
            except OSError:
                pass
            what = "step %d: %s with key %s, %d bytes (%s)" % (t, s["do"], key, len(s["m"]) // 2, s["m"][:40])
            core.add(out.counts, {s["do"]: 1})
            if s["do"] == "sign_tx":
                nonce, to, td, value = s["tx"]
                hx = (lambda x: "%x" % x) if s["form"] & 2 else (lambda x: "0x%X" % x)
                a = srv.command(["sign_tx", "--data", td, "--privkey", priv, "--nonce", hx(nonce), "--to", hx(to), "--value", hx(value)], d, entropy=s["entropy"], record=True)
                out.simtime += 1
                g = {x: re.search(r"^%s = (.*)$" % x, a["out"], re.M) for x in ("TX_HASH", "S2", "SALT", "PK")}
                if a["code"] or not all(g.values()):
                    out.bad = ("signing fails", "%s: %s" % (what, a["error"]))
                    break
                h, s2, salt, pk = (g[x].group(1).strip() for x in ("TX_HASH", "S2", "SALT", "PK"))
                log.append((h, salt, digest(s2)))
                who = ("tx", tuple(s["tx"]))
                if same.setdefault(who, h) != h:
                    out.bad = ("the same transaction gives another hash", what)
                    break
                if any(w[0] == "tx" and w != who and x == h for w, x in same.items()):
                    out.bad = ("different transactions have the same hash", what)
                    break
                # what sign does with these 32 bytes must be the same
                if ("s2", s["k"], h) in same and same["s2", s["k"], h] != s2:
                    out.bad = ("the same data and key give another signature", what)
                    break
                same["s2", s["k"], h] = s2
                out.bad = note(s["k"], h[2:].lower(), (bytes.fromhex(salt[2:]),), a["draws"], what)
            else:
                fs = {"fs": {"fail": [s["fail"]]}} if s["fail"] else {}
                a = srv.command(["sign", "--data", data, "--privkey", priv], d, entropy=s["entropy"], record=True, **fs)
                out.simtime += 1
                try:
                    with open(d + "/sig") as f:
                        sig = bytes.fromhex(f.read().strip())
                except (OSError, ValueError):
                    sig = b""
                if a["code"] or len(sig) < 42:
                    if s["fail"] and a["code"]:
                        core.add(out.faults, {"full disk": 1})
                        continue
                    out.bad = ("signing fails", "%s: %s" % (what, a["error"]))
                    break
                log.append(digest(sig))
                fresh = (tuple(key), s["m"]) not in same
                out.bad = note(s["k"], s["m"], (sig[1:41], sig), a["draws"], what)
                if not out.bad and fresh:
                    v = srv.command(["verify", "--data", s["m"], "--pubkey", "%d-public_key.pem" % s["k"], "--signature", "sig"], d)
                    out.simtime += 1
                    if v["code"] or "is valid" not in v["out"]:
                        out.bad = ("a signature does not verify", "%s: %s %s" % (what, v["error"], v["out"].strip()))
            if out.bad:
                break
        core.add(out.counts, {"repeated": repeats, "distinct": len(salts)})
        core.add(out.faults, {"restart of the program with other entropy": int(out.simtime)})
        out.nontrivial = repeats > 0 and len(salts) > 1
        out.digest = digest(log, out.bad)
        return out

    def shrink(self, c):
        for s in core.shrink_list(c["steps"], 1):
            yield dict(c, steps=s)
        for t, s in enumerate(c["steps"]):
            if s["form"] or s["dir"] or s["srv"]:
                yield dict(c, steps=c["steps"][:t] + [dict(s, form=0, dir=0, srv=0)] + c["steps"][t + 1:])
        if any(k[0] > 64 for k in c["keys"]) and all(s["do"] == "sign" for s in c["steps"]):
            yield dict(c, keys=[[64] + k[1:3] + [k[3] * 64 // 512 if k[0] == 512 else k[3] % 128] for k in c["keys"]])
