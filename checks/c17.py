"""C17: commands of the command line that talk to a chain, over a simulated chain client."""
import json
import os
import random
import re
import shutil
import tempfile
from functools import reduce
import numpy as np
from sim import cbuild, cli, core, pyfalcon, ref
from sim.core import Outcome, digest
from sim.net import Q, flip

ID = "C17"
QUICK, THOROUGH = 60, 1500
ISOLATE = 240
RULE = ("A run: one key of version falcon, ethfalcon or epervier from genkeys, a message of 1 to 1500 bytes and its signature file, which the way may "
        "alter (bits, single coefficients, ends, another signature; other data, another key file), then 1-4 commands verifyonchain, "
        "verifyonchainsend, recoveronchain and recoveronchainsend with RPC URLs of any characters. The client answers honestly (as the contract "
        "would, by reference arithmetic), wrongly, with errors, partial, empty, strange or huge output, dies, or is missing. Commands sign_tx print "
        "values that are decoded the same way. Non-trivial: at least one call reached the client.")
MEASURE = "hash of the arguments and what was shown"
TIME_UNIT = "commands"
REAL = ["pythonref/sign_cli.py (whole commands), common.py, encoding.py and all they use"]
STUB = ["chain client and contract: csim/cast.c with answers by sim/ref.py", "ntru_gen (keys from fixtures/pykeys.json)", "polyntt (numpy stand-in)", "Keccak permutation (compiled)", "os.urandom (seeded)"]
ASSUMPTIONS = ["the contract decides as its documentation says (the Solidity code cannot run here)", "the order of NTT values is that of the polyntt package"]
VERSIONS = ["falcon", "ethfalcon", "epervier"]
XOF = {"falcon": "shake", "ethfalcon": "keccak", "epervier": "shake"}
N = 512
TRUE = "0x" + "0" * 63 + "1"
URLS = ["http://127.0.0.1:8545", "https://sepolia.optimism.io", "https://h/v2/key?a=1&b=2", "https://h/$HOME/x", "https://u:p@h/a'b", "https://h/\"q\"",
        "https://h/a b", "https://h/*?x=[1]", "https://h/`x`", "https://h/a;b", "https://h/\\x", "https://h/(x)#f"]
ADDRESSES = ["0xD088Ede58BD1736477d66d114D842bDE279A41Fa", "0x0000000000000000000000000000000000000001", "falcon.eth"]


def build(d):
    ctx = cli.build(d)
    ctx["cast"] = d + "/cast"
    os.makedirs(ctx["cast"], exist_ok=True)
    cbuild.run(["gcc", "-w", "-O2", "-o", ctx["cast"] + "/cast", cbuild.VERIF + "/csim/cast.c"])
    return ctx


def ntt_table():
    def brv(x):
        return int(format(x, "010b")[::-1], 2)
    w = [pow(7, brv(i), Q) for i in range(N)]
    return w


W = ntt_table()


def ntt(a):
    a = np.array(a, dtype=np.int64) % Q
    m, t = 1, N
    while m < N:
        t //= 2
        w = np.array(W[m:2 * m], dtype=np.int64)[:, None]
        b = a.reshape(m, 2, t)
        u, v = b[:, 0, :], b[:, 1, :] * w % Q
        a = np.stack(((u + v) % Q, (u - v) % Q), axis=1).reshape(N)
        m *= 2
    return [int(x) for x in a]


def pack(a):
    return [sum(a[i + j] % Q << 16 * j for j in range(16)) for i in range(0, N, 16)]


def address(h):
    from Crypto.Hash import keccak
    k = keccak.new(digest_bits=256)
    k.update(b"".join(x.to_bytes(32, "big") for x in ntt(h)))
    return int.from_bytes(k.digest()[-20:], "big")


def decode(sig, version):
    """-> ("ok" | "lax" | "bad", salt, coefficients). lax: zeros are missing or too many."""
    epe = version == "epervier"
    salt = sig[1:41]
    enc = sig[41:len(sig) - 3 * N] if epe else sig[41:]
    want = (2 * 666 if epe else 666) - 41
    if len(salt) < 40 or len(sig) < 41 + (3 * N if epe else 0):
        return "bad", salt, None
    d = pyfalcon.decomp(enc + bytes(want), 2 * N if epe else N)
    if d is None:
        return "bad", salt, None
    vals, end = d
    bits = "".join(format(x, "08b") for x in enc)
    if end > len(bits) and len(enc) >= want or "1" in bits[end:] or any(v == 0 and (bits + "0" * 9999)[p] == "1" for p, v in vals):
        return "bad", salt, None
    if end > len(bits):
        # what is missing are not only zeros behind the last one
        return "bad", salt, None
    if len(enc) > want:
        return "lax", salt, [v for _, v in vals]
    return "ok" if len(enc) == want else "lax", salt, [v for _, v in vals]


def parse(args):
    """(subcommand, options, positional arguments) of a call of the client."""
    opts, pos = {}, []
    i = 0
    while i < len(args):
        a = args[i]
        if a.startswith("--") and "=" in a:
            k, v = a.split("=", 1)
            opts.setdefault(k, []).append(v)
        elif a.startswith("--"):
            opts.setdefault(a, []).append(args[i + 1] if i + 1 < len(args) else None)
            i += 1
        elif a == "-r":
            opts.setdefault("--rpc-url", []).append(args[i + 1] if i + 1 < len(args) else None)
            i += 1
        else:
            pos.append(a)
        i += 1
    return pos[:1], opts, pos[1:]


def ints(t):
    t = t.strip()
    if t[:1] != "[" or t[-1:] != "]":
        return None
    try:
        return [int(x.strip(), 0) for x in t[1:-1].split(",")]
    except ValueError:
        return None


def blob(t):
    try:
        return bytes.fromhex(t[2:]) if t[:2] == "0x" else None
    except ValueError:
        return None


class World:
    def __init__(self, ctx):
        self.ctx = ctx
        self.srv = cli.Server(ctx, shim=False, env={"VERIF_CAST": ""})
        self.dir = tempfile.mkdtemp(prefix="verif-c17-")
        self.made = {}
        self.sigs = {}

    def close(self):
        self.srv.close()
        shutil.rmtree(self.dir, ignore_errors=True)

    def case(self, rng):
        v = rng.choice(VERSIONS)
        m = [rng.randrange(3), rng.randrange(6)]
        steps = []
        acts = ["verifyonchain"] * 3 + (["recoveronchain", "recoveronchainsend"] * 2 if v == "epervier" else ["verifyonchainsend"] * 2 + ["sign_tx"])
        for _ in range(rng.choice([1, 2, 2, 3, 4])):
            alter = []
            for _ in range(rng.choice([0, 0, 0, 1, 1, 1, 2])):
                alter.append([rng.choice(["bit", "salt", "coef", "coef", "negate", "end", "cut", "extend", "head", "inv", "other", "data", "key", "zero", "big", "short"]), rng.getrandbits(30)])
            s = {"do": rng.choice(acts), "alter": alter, "url": rng.choice(URLS) if rng.random() < .8 else "https://%x" % rng.getrandbits(60), "to": rng.choice(ADDRESSES),
                 "pk": "0x" + rng.randbytes(32).hex(), "entropy": rng.getrandbits(30),
                 "chain": rng.choice(["honest"] * 6 + ["opposite", "opposite", "revert", "empty", "garbage", "zero", "one", "two", "dies", "half", "missing", "huge", "binary", "warning", "other", "newlines", "shifted", "shifted"]), "r": rng.getrandbits(30)}
            if s["do"] == "sign_tx":
                s["tx"] = [rng.choice([0, 1, 255, rng.getrandbits(256)]), rng.choice([0, rng.getrandbits(160), (1 << 160) - 1]), rng.randbytes(rng.choice([1, 31, 32, 33, 64, 200])).hex(), rng.choice([0, 10 ** 18, rng.getrandbits(256)])]
            steps.append(s)
        return {"version": v, "key": rng.randrange(2), "m": m, "steps": steps}

    def message(self, m):
        r = random.Random("c17 %s" % m)
        return r.randbytes([1, 32, 32, 33, r.randrange(2, 300), r.choice([r.randrange(300, 1500), r.randrange(1500, 4000)])][m[1]])

    def keyfiles(self, v, i):
        if (v, i) not in self.made:
            d = self.dir + "/make"
            os.makedirs(d, exist_ok=True)
            cli.write_dir(d, {})
            a = self.srv.command(["genkeys", "--version", v], d, key=[i, 0])
            f = cli.read_dir(d)
            self.made[v, i] = f if a["code"] == 0 and "private_key.pem" in f and "public_key.pem" in f else None
        return self.made[v, i]

    def signature(self, v, i, m):
        k = (v, i, tuple(m))
        if k not in self.sigs:
            d = self.dir + "/make"
            cli.write_dir(d, self.keyfiles(v, i))
            a = self.srv.command(["sign", "--data", self.message(m).hex(), "--privkey", "private_key.pem"], d)
            try:
                self.sigs[k] = bytes.fromhex(cli.read_dir(d)["sig"].decode().strip())
            except (KeyError, ValueError):
                self.sigs[k] = None
        return self.sigs[k]

    def alter(self, v, i, m, sig, data, ki, how, r):
        """-> (signature, data, key)"""
        rng = random.Random(r)
        epe = v == "epervier"
        tail = sig[len(sig) - 3 * N:] if epe else b""
        enc = sig[41:len(sig) - len(tail)]
        if how == "bit":
            return flip(rng, sig, 0, len(sig)), data, ki
        if how == "salt":
            return flip(rng, sig, 1, 41), data, ki
        if how == "head":
            return bytes([rng.randrange(256)]) + sig[1:], data, ki
        if how == "inv":
            return (flip(rng, sig, len(sig) - len(tail), len(sig)) if tail else sig), data, ki
        if how in ("coef", "negate", "zero", "big"):
            d = pyfalcon.decomp(enc, 2 * N if epe else N)
            if d is None:
                return sig, data, ki
            vals = [x for _, x in d[0]]
            for _ in range(rng.choice([1, 1, 3])):
                p = rng.choice([0, 1, 15, 16, N - 1, rng.randrange(len(vals)), len(vals) - 1, N % len(vals)])
                vals[p] = {"coef": vals[p] + rng.choice([-1, 1, 128]), "negate": -vals[p], "zero": 0, "big": rng.choice([-1, 1]) * rng.choice([2047, 2048, 6144, 6145, 12288, 12289, 12290])}[how]
            e = pyfalcon.comp(vals, len(enc))
            return sig[:41] + e + tail, data, ki
        if how == "end":
            return sig[:41] + flip(rng, enc, max(0, len(enc) - 40), len(enc)) + tail, data, ki
        if how == "cut":
            return sig[:rng.choice([len(sig) - 1, len(sig) - 2, rng.randrange(len(sig) + 1)])], data, ki
        if how == "short":
            return sig[:41] + enc[:-1] + tail, data, ki
        if how == "extend":
            return sig[:41] + enc + rng.choice([b"\0", b"\1", bytes(40)]) + tail, data, ki
        if how == "other":
            o = self.signature(v, i, [m[0], (m[1] + 1) % 6])
            return o or sig, data, ki
        if how == "data":
            return sig, rng.choice([flip(rng, data), data + b"\0", data[:-1] or b"\0", b"\0" + data]), ki
        return sig, data, (ki + 1) % 2

    def run(self, case):
        out = Outcome(nontrivial=False)
        log = []
        v, i = case["version"], case["key"]
        d = self.dir + "/w"
        cast = self.dir + "/cast"
        for x in (d, cast):
            os.makedirs(x, exist_ok=True)
        for t, s in enumerate(case["steps"]):
            if self.keyfiles(v, i) is None:
                out.bad = ("keys cannot be saved", "version %s" % v)
                break
            sig0 = self.signature(v, i, case["m"])
            if sig0 is None:
                out.bad = ("signing fails", "version %s" % v)
                break
            out.bad = self.step(out, case, s, v, i, sig0, d, cast, log)
            if out.bad:
                out.bad = (out.bad[0], "step %d: %s" % (t, out.bad[1]))
                break
        out.digest = digest(log, out.bad)
        return out

    def step(self, out, case, s, v, i, sig, d, cast, log):
        core.add(out.counts, {s["do"]: 1})
        out.simtime += 1
        data, ki = self.message(case["m"]), i
        if s["do"] == "sign_tx":
            return self.sign_tx(out, s, v, i, d, log)
        for how, r in s["alter"]:
            sig, data, ki = self.alter(v, i, case["m"], sig, data, ki, how, r)
            core.add(out.faults, {"altered: " + how: 1})
        kf = self.keyfiles(v, ki)
        if kf is None:
            return ("keys cannot be saved", "version %s" % v)
        cli.write_dir(d, {"pk": kf["public_key.pem"], "s": sig.hex().encode()})
        kind, salt, vals = decode(sig, v)
        epe = v == "epervier"
        h = self.h(v, ki)
        # what the chain would say
        good, right = False, None
        want = None
        if vals is not None:
            s1 = vals[-N:]
            point = None
            if epe:
                t = ntt(s1)
                inv = [pow(x, -1, Q) if x else 0 for x in t]
                hint = reduce(lambda a, b: a * b % Q, inv, 1)
                if 0 in t:
                    kind = "lax"
                elif ref.norm(ref.center(vals[:N]), ref.center(s1)) <= ref.BOUND[N]:
                    point = ref.hash_point(N, data, salt, "shake")
                    # the key is (hash - s0) / s1
                    hn = [a * b % Q for a, b in zip(ntt(point - np.array(vals[:N])), inv)]
                    from Crypto.Hash import keccak
                    k = keccak.new(digest_bits=256)
                    k.update(b"".join(x.to_bytes(32, "big") for x in hn))
                    right = int.from_bytes(k.digest()[-20:], "big")
                want = {"fn": "recover(bytes,bytes,uint256[],uint256[],uint256)", "lists": [pack(vals[:N]), pack(s1)], "hint": hint}
                good = right is not None and right == address(h)
            else:
                want = {"fn": "verify(bytes,bytes,uint256[],uint256[])", "lists": [pack(s1), pack(ntt(h))]}
                good = ref.verify(N, h, data, salt, ref.center(s1), XOF[v])
        send = s["do"].endswith("send")
        # the answer of the client
        r = random.Random(s["r"])
        answer = ("0x%064x" % right if right is not None else None) if epe else "0x%064x" % good
        so, se, code = (answer + "\n" if answer else ""), ("" if answer else "Error: server returned an error response: error code 3: execution reverted: norm too large\n"), (0 if answer else 1)
        if send:
            so = "\nblockHash               0x%064x\nstatus               1 (success)\ntransactionHash         0x%064x\n" % (r.getrandbits(256), r.getrandbits(256))
            se, code = "", 0
        c = s["chain"]
        own = address(h)
        if c == "opposite":
            so, se, code = "0x%064x\n" % ((own ^ 1 << r.randrange(160) if good else own) if epe else not good), "", 0
        elif c == "revert":
            so, se, code = "", "Error: server returned an error response: error code 3: execution reverted: invalid s2 length\n", 1
        elif c == "empty":
            so, se, code = r.choice(["", "\n", "0x", "0x\n"]), "", 0
        elif c == "garbage":
            so, se, code = r.choice(["Error\n", "0x%x\n" % r.getrandbits(600), "null\n", "true?\n", "-1\n"]), r.choice(["", "oops\n"]), 0
        elif c in ("zero", "one", "two"):
            x = {"zero": 0, "one": 1, "two": 2}[c]
            so, se, code = "0x%064x\n" % x, "", 0
        elif c == "dies":
            so, se, code = "", r.choice(["", "Error: "]), -r.choice([9, 11, 6])
        elif c == "half":
            so, se, code = (so.strip() or "0x%064x" % own)[:r.randrange(2, 60)], "Error: connection reset\n", r.choice([1, -9])
        elif c == "huge":
            so, se = so + "x" * r.choice([70000, 300000]) + "\n", "y" * r.choice([0, 70000, 200000])
        elif c == "binary":
            so = so + "\udcff\udcfe\n"
        elif c == "warning":
            se = "Warning: This is a nightly build of Foundry.\n"
        elif c == "other":
            so, se, code = "0x%064x\n" % (r.getrandbits(160) if epe else r.getrandbits(256) | 2), "", 0
        elif c == "shifted":
            # the right answer inside of another one
            x = own if epe else 1
            so, se, code = "0x" + r.choice(["%064x" % (x << 8 * r.randrange(1, 12)), "%064x" % (x | r.getrandbits(96) << 160 | 1 << 200), "%064x%064x" % (x, r.getrandbits(200)),
                                            "%064x%064x" % (r.getrandbits(160), x), "%064x%064x%064x" % (32, 20, x), "%x" % (x >> 4), "%064x" % (x ^ 1), "%s" % ("%064x" % x)[::-1]]) + "\n", "", 0
        elif c == "newlines":
            so = "\n\n" + so + "\n\n"
        if c != "honest":
            core.add(out.faults, {"client: " + c: 1})
        bo, be = so.encode(errors="surrogateescape"), se.encode(errors="surrogateescape")
        with open(cast + "/answer", "wb") as f:
            f.write(b"%d %d %d\n" % (code, len(bo), len(be)) + bo + be)
        try:
            os.unlink(cast + "/calls")
        except OSError:
            pass
        argv = [s["do"], "--pubkey", "pk", "--data", data.hex(), "--signature", "s", "--contractaddress", s["to"], "--rpc", s["url"]]
        if send:
            argv += ["--privatekey", s["pk"]]
        path = "/usr/bin:/bin" if c == "missing" else self.ctx["cast"] + ":/usr/bin:/bin"
        a = self.srv.command(argv, d, entropy=s["entropy"], fds=1, env={"PATH": path, "VERIF_CAST": cast})
        calls = self.calls(cast + "/calls")
        what = "%s, version %s, %s; client: %s" % (s["do"], v, s["alter"] or "intact", c)
        shown = a["out"] + a["err"]
        log.append((a["status"], a["code"], digest(shown), [[x for x in k] for k in calls]))
        core.add(out.counts, {"calls of the client": len(calls), "valid": int(good), "not decodable": int(vals is None)})
        if calls:
            out.nontrivial = True
        if a["status"] in ("hang", "died"):
            return ("the command %s" % ("does not end" if a["status"] == "hang" else "crashes"), "%s: %s" % (what, a["error"]))
        # what was sent
        if calls and vals is None:
            return ("a call without a decodable signature", "%s: %s" % (what, calls[0][:3]))
        for k in calls:
            sub, opts, pos = parse(k)
            bad = None
            if sub != ["send" if send else "call"]:
                bad = "subcommand %s" % sub
            elif opts.pop("--rpc-url", None) != [s["url"]]:
                bad = "RPC URL, %s" % k[-2:]
            elif opts.pop("--private-key", None) != ([s["pk"]] if send else None):
                bad = "private key"
            elif len(pos) != 4 + 2 + (1 if epe else 0):
                bad = "%d arguments" % len(pos)
            elif pos[0] != s["to"]:
                bad = "contract %s" % pos[0]
            elif pos[1].replace(" ", "") != want["fn"]:
                bad = "function %s" % pos[1]
            elif blob(pos[2]) != data:
                bad = "message %s" % pos[2][:80]
            elif blob(pos[3]) != salt:
                bad = "salt %s" % pos[3]
            elif [ints(x) for x in pos[4:6]] != want["lists"]:
                j = 0 if ints(pos[4]) != want["lists"][0] else 1
                bad = "%s %s" % (["first", "second"][j] + " list", pos[4 + j][:100])
            elif epe and int(pos[6], 0) != want["hint"]:
                bad = "hint %s, not %d" % (pos[6], want["hint"])
            if bad:
                return ("the client is called with other arguments", "%s: %s" % (what, bad))
        if kind == "ok" and c != "missing" and not calls:
            return ("the client is not called", "%s: %s %s" % (what, a["error"], shown[:200]))
        if send and len(calls) > 1:
            return ("more than one transaction", what)
        # what is shown
        lines = [x.strip() for x in shown.splitlines()]
        success = any(re.fullmatch(r"0x0*1", x) for x in lines)
        if s["do"] == "verifyonchain":
            yes = r"0x0*%x" % (own if epe else 1)
            said = bool(calls) and re.fullmatch(yes, so.strip()) is not None
            may = bool(calls) and any(re.fullmatch(yes, x.strip()) for x in so.splitlines())
            if success and not may:
                return ("shown as verified although the chain did not say so", "%s: the client answered %r %r, exit %d" % (what, so[:80], se[:80], code))
            if said and not success and not se and code == 0 and c != "binary":
                return ("a verified signature is not shown as such", "%s: %s %s" % (what, a["error"], shown[:200]))
            if success and c == "honest" and not good:
                return ("an invalid signature is shown as verified", what)
        elif success and not (calls and TRUE in so):
            return ("shown as verified although the chain did not say so", "%s: the client answered %r %r, exit %d" % (what, so[:80], se[:80], code))
        for x in re.findall(r"0x[0-9a-fA-F]{40,}", shown):
            if not (calls and (x in so or x in se)) and not (s["do"] == "verifyonchain" and success and int(x, 16) == 1) and x not in " ".join(argv):
                return ("something is shown that the chain did not say", "%s: %s" % (what, x[:100]))
        if calls and a["status"] == "exit" and a["code"] == 0 and c != "binary" and not (epe and s["do"] == "verifyonchain"):
            for x in so.splitlines() + se.splitlines():
                if x.strip() not in shown:
                    return ("an answer of the chain is not shown", "%s: %s" % (what, x[:100]))
        return None

    def h(self, v, i):
        """The public polynomial of a key, from f and g in its file."""
        k = ("h", v, i)
        if k not in self.made:
            from standins.polyntt.core import ntt as nt, intt
            text = self.keyfiles(v, i)["private_key.pem"].decode()
            g = [re.search(r"^%s *= *(\[[-0-9, ]*\])" % x, text, re.M) for x in "fg"]
            f, g = [json.loads(x.group(1)) for x in g] if all(g) else self.polys()[i][:2]
            a, b = nt(f, Q), nt(g, Q)
            self.made[k] = intt([y * pow(x, -1, Q) % Q for x, y in zip(a, b)], Q)
        return self.made[k]

    def polys(self):
        if "polys" not in self.made:
            with open(cbuild.VERIF + "/fixtures/pykeys.json") as f:
                self.made["polys"] = json.load(f)[str(N)]
        return self.made["polys"]

    def calls(self, path):
        try:
            with open(path, "rb") as f:
                b = f.read()
        except OSError:
            return []
        out, p = [], 0
        while p < len(b):
            e = b.index(b"\n", p)
            n = int(b[p + 2:e])
            p = e + 1
            args = []
            for _ in range(n):
                e = b.index(b" ", p)
                l = int(b[p:e])
                args.append(b[e + 1:e + 1 + l].decode(errors="surrogateescape"))
                p = e + 2 + l
            out.append(args)
        return out

    def sign_tx(self, out, s, v, i, d, log):
        """The values printed for the chain."""
        cli.write_dir(d, {"sk": self.keyfiles(v, i)["private_key.pem"]})
        nonce, to, td, value = s["tx"]
        a = self.srv.command(["sign_tx", "--data", td, "--privkey", "sk", "--nonce", "%x" % nonce, "--to", "0x%x" % to, "--value", "%x" % value], d, entropy=s["entropy"])
        g = {x: re.search(r"^%s = (.*)$" % x, a["out"], re.M) for x in ("TX_HASH", "S2", "SALT", "PK")}
        what = "version %s, transaction %s" % (v, s["tx"])
        if a["code"] or not all(g.values()):
            return ("signing a transaction fails", "%s: %s" % (what, a["error"]))
        tx, s2, salt, pk = (g[x].group(1).strip() for x in ("TX_HASH", "S2", "SALT", "PK"))
        log.append((tx, s2, salt))
        from Crypto.Hash import keccak
        k = keccak.new(digest_bits=256)
        b = bytes.fromhex(td)
        k.update(nonce.to_bytes(32, "big") + to.to_bytes(32, "big") + (128).to_bytes(32, "big") + value.to_bytes(32, "big") + len(b).to_bytes(32, "big") + b + bytes(-len(b) % 32))
        if blob(tx) != k.digest():
            return ("the hash of a transaction is wrong", "%s: %s" % (what, tx))
        h = self.h(v, i)
        if ints(pk) != pack(ntt(h)):
            return ("the printed key is wrong", "%s: %s" % (what, pk[:100]))
        w = ints(s2)
        if not w or len(w) != 32:
            return ("the printed signature is wrong", "%s: %s" % (what, s2[:100]))
        s1 = [x >> 16 * j & 65535 for x in w for j in range(16)]
        if max(s1) >= Q or len(blob(salt) or b"") != 40 or not ref.verify(N, h, blob(tx), blob(salt), ref.center(s1), XOF[v]):
            return ("the printed signature is wrong", "%s: %s %s" % (what, salt, s2[:100]))
        out.nontrivial = True
        return None

    def shrink(self, c):
        for s in core.shrink_list(c["steps"], 1):
            yield dict(c, steps=s)
        for t, s in enumerate(c["steps"]):
            w = lambda x: dict(c, steps=c["steps"][:t] + [x] + c["steps"][t + 1:])
            for l in core.shrink_list(s["alter"], 0):
                yield w(dict(s, alter=l))
            if s["chain"] != "honest":
                yield w(dict(s, chain="honest"))
            if s["url"] != URLS[0]:
                yield w(dict(s, url=URLS[0]))
        if c["m"] != [0, 0]:
            yield dict(c, m=[0, 0])
