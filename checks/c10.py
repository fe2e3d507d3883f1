"""C10: the Go binding answers every input with a verdict or an error."""
import random
from sim import core, gosim, net, pyfalcon, ref
from sim.core import Outcome, digest
from checks.c01 import load_keys
from checks.c09 import op

ID = "C10"
QUICK, THOROUGH = 60, 1500
MINIMISE = 60
RULE = ("A run is a process with a history of 1-10 calls of the Go binding (built with AddressSanitizer, C and Go): key generation with "
        "and without failing randomness, signing of messages of 0 to 5000 (seldom 300000) bytes with keys of the right length, wrong lengths, altered or random, and "
        "verification of what came out after a network has altered message, signed message or key in up to 3 ways (bits, truncation, extension, "
        "splices, other encodings, lengths), or nil and empty slices and random bytes. What was signed and arrives unaltered under its key verifies, and fits the "
        "definition of a signature (an independent model); nothing else verifies; failures return an error and nothing else. Non-trivial: a fault fired.")
MEASURE = "hash of the calls and of their results"
TIME_UNIT = "calls"
REAL = ["falcon/falcon.go (instrumented copy)", "all C sources of falcon/nistfalcon/src", "the Go runtime"]
STUB = ["randombytes (a stream per call with failures)", "network (alterations of messages, signatures and keys)"]
ASSUMPTIONS = ["nobody forges a signature", "AddressSanitizer sees accesses outside of Go and C objects"]
N = 512


def build(d):
    return {"exe": gosim.build(d, True)}


class World:
    def __init__(self, ctx):
        self.exe = ctx["exe"]
        self.keys = load_keys()
        self.signed = {}

    def close(self):
        pass

    def execute(self, pool, ops):
        return gosim.execute(self.exe, {"Pool": pool, "Tasks": [ops]})

    def case(self, rng):
        ops = []
        for j in range(rng.choice([1, 2, 4, 6, 10])):
            x = rng.random()
            fail = [rng.randrange(2), rng.choice([0, 1, 39, 40, 47, 48, rng.randrange(49)]), rng.randrange(2)] if rng.random() < .15 else None
            rs = rng.choice([rng.randrange(100), rng.getrandbits(50)])
            l = rng.choice([0, 1, 2, 16, 39, 40, 41, 57, 58, 100, 135, 136, 600, 640, 689, 690, 691, 1330, 1331, rng.randrange(300), rng.randrange(5000)])
            if rng.random() < .03:
                l = rng.choice([65535, 65536, 300000])
            m = rng.randbytes(l).hex()
            if x < .1:
                ops.append({"kind": "kp", "rs": rs, "fail": fail})
            elif x < .4:
                how = rng.choice([None] * 6 + ["len", "len", "random", "header", "bit", "nil", "empty", "body"])
                ops.append({"kind": "sg", "rs": rs, "fail": fail, "m": None if rng.random() < .03 else m, "k": rng.randrange(4), "key": how, "ks": rng.getrandbits(40)})
            else:
                f = []
                if rng.random() > .3:
                    for _ in range(rng.choice([1, 1, 1, 2, 3])):
                        f.append([rng.choice(net.KINDS + ["all", "m", "m", "pk", "pklen", "pknil", "otherpk", "mnil", "smnil", "empty", "coef", "random", "big", "forge", "tail", "shift", "shift"]), rng.getrandbits(40)])
                o = {"kind": "op", "m": m[:8000], "k": rng.randrange(4), "rs": rng.randrange(200), "f": f, "spare": rng.choice([0, 0, 5, 800])}
                if rng.random() < .5:
                    # the same again, altered differently
                    old = [x for x in ops if x["kind"] == "op"]
                    old = [x for x in old if not x["f"]] or old
                    if old:
                        o.update({x: old[-1][x] for x in ("m", "k", "rs")})
                        if rng.random() < .5:
                            o["f"] = [[rng.choice(["shift", "shift", "m", "pk", "otherpk"]), rng.getrandbits(40)]]
                ops.append(o)
        return {"ops": ops}

    def sm(self, k, m, rs):
        """A signed message from a process of its own. None: it failed."""
        key = (k, m, rs)
        if key not in self.signed:
            if len(self.signed) > 2000:
                self.signed.clear()
            R = self.execute([{"Hex": m, "Spare": 0}, {"Hex": self.keys[k]["sk"].hex(), "Spare": 0}], [op("sg", rs, "p0", "p1")])
            r = R["Res"][0] if R["Res"] else None
            self.signed[key] = bytes.fromhex(r["SM"]) if r and not r["Failed"] and not r["Panic"] else None
        return self.signed[key]

    def fits(self, sm, m, pk):
        """Is this a signed message by the definition?"""
        s = net.Signed(sm)
        if len(sm) < 43 or s.msg != m or s.sig[:1] != b"\x29" or int.from_bytes(s.head, "big") != len(s.sig) or pk[:1] != b"\x09":
            return False
        r = pyfalcon.decomp(s.sig[1:], N)
        if not r:
            return False
        w = int.from_bytes(pk[1:], "big")
        h = [w >> 14 * (N - 1 - i) & 0x3fff for i in range(N)]
        return ref.verify(N, h, m, s.nonce, [v for _, v in r[0]], "shake")

    def deliver(self, o):
        """-> sm, m, pk as bytes or None; do they go together as they were?; faults"""
        m = bytes.fromhex(o["m"])
        k = o["k"]
        pk = self.keys[k]["pk_n"]
        sm = self.sm(k, o["m"], o["rs"])
        if sm is None:
            return None
        orig = (sm, m, pk)
        fired = []
        for kind, seed in o["f"]:
            rng = random.Random(seed)
            before = (sm, m, pk)
            other = self.sm((k + 1) % 4, "00aa", 3) or b"x"
            b = sm or b""
            if kind == "m":
                w = rng.randrange(6)
                x = bytearray(m or b"")
                if w <= 1 and x:
                    x[rng.choice([0, -1, rng.randrange(len(x))])] ^= 1 << rng.randrange(8)
                elif w == 2:
                    x += rng.choice([b"\0", rng.randbytes(rng.randrange(1, 60))])
                elif w == 3:
                    x = x[:-1]
                elif w == 4:
                    x = x[1:]
                else:
                    x = bytearray(b)
                m = bytes(x)
            elif kind == "pk":
                pk = net.mutate_pk(rng, self.keys[k]["pk_n"], "n")
            elif kind == "pklen":
                n = rng.choice([0, 1, 896, 898, 1025, 1281, rng.randrange(2000)])
                pk = (self.keys[k]["pk_n"] * 3)[:n]
            elif kind == "pknil":
                pk = None
            elif kind == "otherpk":
                pk = self.keys[(k + rng.randrange(1, 4)) % 4]["pk_n"]
            elif kind == "mnil":
                m = rng.choice([None, b""])
            elif kind == "smnil":
                sm = rng.choice([None, b""])
            elif kind == "empty":
                sm = m = rng.choice([None, b""])
            elif kind == "random":
                sm = rng.randbytes(rng.choice([1, 41, 42, 43, 44, 690, rng.randrange(3000)]))
            elif kind == "all":
                # the message that an altered signed message holds
                sm = net.mutate(rng, rng.choice(net.KINDS), b, other, "n")
                m = net.Signed(sm).msg
            elif kind == "coef":
                s = net.Signed(b)
                r = pyfalcon.decomp(s.sig[1:], N)
                if r:
                    vs = [v for _, v in r[0]]
                    for _ in range(rng.choice([1, 1, 3])):
                        i = rng.randrange(N)
                        vs[i] = rng.choice([vs[i] + 1, -vs[i], vs[i] + net.Q, 2047, -2048, 5000, vs[i] ^ 1])
                    s.sig = s.sig[:1] + pyfalcon.comp(vs)
                    sm = s.join()
            elif kind == "big":
                # announced sizes that do not fit
                sm = rng.choice([b"\xff\xff", b"\x02\x8a", b"\0\0", b"\0\1"]) + rng.randbytes(rng.choice([0, 1, 39, 40, 41, 42, 600, 689, 700, 5000]))
            elif kind == "forge":
                s = net.Signed(b)
                w = int.from_bytes(self.keys[k]["pk_n"][1:], "big")
                h = [w >> 14 * (N - 1 - i) & 0x3fff for i in range(N)]
                s1 = ref.wrapped(rng, h, ref.hash_point(N, s.msg, s.nonce, "shake"), True)
                if s1 is not None:
                    s.sig = b"\x29" + pyfalcon.comp(s1)
                    sm = s.join()
            elif kind == "shift":
                # the same bytes, cut up differently
                x = [sm or b"", m or b"", pk or b""]
                i = rng.randrange(2)
                n = rng.choice([1, 1, 2, 40, 100])
                if rng.random() < .5 or not x[i]:
                    x[i], x[i + 1] = x[i] + x[i + 1][:n], x[i + 1][n:]
                else:
                    x[i], x[i + 1] = x[i][:-n], x[i][-n:] + x[i + 1]
                sm, m, pk = x
            elif kind == "tail":
                # what a caller may expect a signature to be: without the message
                s = net.Signed(b)
                w = rng.randrange(3)
                if w == 0:
                    s.msg = b""
                    sm = s.join()
                elif w == 1:
                    sm = b[:42] + b[len(b) - len(s.sig):]
                else:
                    sm, m = b[42 + len(s.msg):], m
            else:
                sm = net.mutate(rng, kind, b, other, "n")
            if (sm, m, pk) != before:
                fired.append(kind)
        # (nil and empty are the same bytes)
        same = tuple(x or b"" for x in (sm, m, pk)) == orig
        return sm, m, pk, same, fired

    def run(self, c):
        out = Outcome(nontrivial=False)
        pool, ops, meta = [], [], []

        def put(b, spare=0):
            if b is None:
                return "nil"
            pool.append({"Hex": b.hex() if isinstance(b, bytes) else b, "Spare": spare})
            return "p%d" % (len(pool) - 1)

        def fault(k):
            out.faults[k] = out.faults.get(k, 0) + 1
            out.nontrivial = True
        try:
            for o in c["ops"]:
                if o["kind"] == "kp":
                    meta.append((o, len(ops), None))
                    ops.append(op("kp", o["rs"], fail=o["fail"]))
                    # is it a key?
                    q = put(b"probe")
                    ops.append(op("sg", o["rs"] + 1, q, "r%d.sk" % (len(ops) - 1)))
                    ops.append(op("op", 1, "r%d.sm" % (len(ops) - 1), q, "r%d.pk" % (len(ops) - 2)))
                elif o["kind"] == "sg":
                    key = self.spoil(self.keys[o["k"]]["sk"], o["key"], o["ks"])
                    a, b = put(o["m"]), put(key)
                    meta.append((o, len(ops), key))
                    ops.append(op("sg", o["rs"], a, b, fail=o["fail"]))
                    ops.append(op("op", 1, "r%d.sm" % (len(ops) - 1), a, put(self.keys[o["k"]]["pk_n"])))
                else:
                    d = self.deliver(o)
                    if d is None:
                        out.bad = ("a message cannot be signed", "%d bytes" % (len(o["m"]) // 2))
                        out.digest = "nosign"
                        return out
                    meta.append((o, len(ops), d))
                    ops.append(op("op", 1, put(d[0], o["spare"]), put(d[1], o["spare"]), put(d[2], o["spare"])))
            R = self.execute(pool, ops)
        except gosim.Crash as e:
            out.bad = ("the process ends", str(e))
            out.digest = "crash"
            return out
        if R["Res"] is None:
            out.bad = ("a call does not return", "")
            out.digest = "stuck"
            return out
        res = R["Res"]
        out.simtime = len(ops)
        out.digest = digest([(r["Panic"], r["Failed"], r["Verdict"], r["PK"], r["SK"], r["SM"]) for r in res], c["ops"])

        def judge():
            for i, r in enumerate(res):
                if r["Panic"]:
                    return ("a call panics", "%s: %s" % (ops[i]["Kind"], r["Panic"]))
                if r["InputChanged"] or r["Outside"] or r["InputChangedLater"]:
                    return ("an input slice changes", ops[i]["Kind"])
                if r["ResultChangedLater"]:
                    return ("a returned slice changes later", ops[i]["Kind"])
                if r["Failed"] and (r["PK"] or r["SK"] or r["SM"] or r["Verdict"]):
                    return ("a failed call returns something besides the error", "%s: %s" % (ops[i]["Kind"], r["Err"]))
            for o, i, x in meta:
                r = res[i]
                if o["kind"] in ("kp", "sg"):
                    failed = o["fail"] and r["NRand"] > o["fail"][0]
                    if failed:
                        fault("randomness fails")
                        if not r["Failed"]:
                            return ("a failure of the randomness source is not returned as an error", "%s, request %d" % (o["kind"], o["fail"][0]))
                        continue
                if o["kind"] == "kp":
                    if r["Failed"]:
                        return ("a key cannot be generated", r["Err"])
                    out.counts["keys"] = out.counts.get("keys", 0) + 1
                    if len(r["PK"]) != 2 * 897 or len(r["SK"]) != 2 * 1281 or not res[i + 2]["Verdict"] or res[i + 2]["Failed"]:
                        return ("a generated key does not verify its own signature", "sizes %d and %d, %s %s" % (len(r["PK"]) // 2, len(r["SK"]) // 2, res[i + 1]["Err"], res[i + 2]["Err"]))
                elif o["kind"] == "sg":
                    how = o["key"]
                    sk = self.keys[o["k"]]["sk"]
                    v = res[i + 1]
                    if how:
                        fault("private key: " + how)
                    if x != sk:
                        if (x is None or len(x) != 1281) and not r["Failed"]:
                            return ("a key of the wrong size is not refused", "signing with %d bytes" % len(x or b""))
                        if x is not None and len(x) == 1281 and x[0] != sk[0] and not r["Failed"]:
                            return ("a key with another header is not refused", "signing with header %d" % x[0])
                        continue
                    m = bytes.fromhex(o["m"] or "")
                    if r["Failed"]:
                        return ("a message cannot be signed", "%d bytes: %s" % (len(m), r["Err"]))
                    out.counts["messages signed"] = out.counts.get("messages signed", 0) + 1
                    if not v["Verdict"] or v["Failed"]:
                        return ("a message that was signed does not verify", "%d bytes: %s" % (len(m), v["Err"]))
                    if not self.fits(bytes.fromhex(r["SM"]), m, self.keys[o["k"]]["pk_n"]):
                        return ("a signed message is none by the definition", "%d bytes" % len(m))
                else:
                    sm, m, pk, same, fired = x
                    for k in fired:
                        fault("network: " + k)
                    if same:
                        out.counts["genuine deliveries"] = out.counts.get("genuine deliveries", 0) + 1
                        if r["Failed"] or not r["Verdict"]:
                            return ("a message that was signed does not verify", "%d bytes: %s" % (len(m or b""), r["Err"]))
                    else:
                        out.counts["altered deliveries"] = out.counts.get("altered deliveries", 0) + 1
                        if r["Verdict"]:
                            return ("something verifies that was not signed", "faults %s, message of %d bytes, signed message of %d, key of %d" % (o["f"], len(m or b""), len(sm or b""), len(pk or b"")))
                        if pk is None or len(pk) != 897:
                            if not r["Failed"]:
                                return ("a key of the wrong size is not refused", "verifying with %d bytes" % len(pk or b""))
            return None
        out.bad = judge()
        return out

    @staticmethod
    def spoil(sk, how, seed):
        rng = random.Random(seed)
        if how is None:
            return sk
        if how == "len":
            return (sk * 2)[:rng.choice([1280, 1282, 897, 1, 1025, rng.randrange(2500)])]
        if how == "random":
            return rng.randbytes(1281)
        if how == "header":
            return bytes([rng.choice([0x58, 0x5a, 0, 9, 0x49, 0xff])]) + sk[1:]
        if how == "nil":
            return None
        if how == "empty":
            return b""
        b = bytearray(sk)
        if how == "bit":
            b[rng.randrange(1, 1281)] ^= 1 << rng.randrange(8)
        else:
            i = rng.randrange(1, 1281)
            b[i:i + 20] = bytes([rng.choice([0, 255, 0x80, 0x82])]) * len(b[i:i + 20])
        return bytes(b)

    def shrink(self, c):
        for ops in core.shrink_list(c["ops"], 1):
            yield dict(c, ops=ops)
        for j, o in enumerate(c["ops"]):
            r = lambda **k: dict(c, ops=c["ops"][:j] + [dict(o, **k)] + c["ops"][j + 1:])
            for f in core.shrink_list(o.get("f") or []):
                yield r(f=f)
            if len(o.get("m") or "") > 2:
                yield r(m=o["m"][:len(o["m"]) // 4 * 2])
