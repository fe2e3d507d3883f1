"""C07: the Python verifiers accept only what was signed and never raise."""
import random
from sim import cbuild, core, pyfalcon, ref
from sim.core import Outcome, digest
from sim.pyfalcon import KINDS, ROOM, SCHEMES, XOFS

ID = "C07"
QUICK, THOROUGH = 75, 1500
ISOLATE = 120
RULE = ("A run is a network of 1-4 signers (Falcon, recovery, Epervier; ring degrees 8-1024; SHAKE256, Keccak, BLAKE2s, KeccaXOF hashing) and "
        "verifier objects that live for the run. 1-4 signed messages are delivered 2-14 times: intact, repeated, reordered, to the wrong key, "
        "scheme or hash, and altered by 1-3 of 21 kinds of network fault; public keys of degree 512 and 1024 travel as bytes and are altered "
        "too. Dishonest signers make signatures with norms just below and just above the bound, and forge recovery signatures without the key. The oracle is the set of signed pairs. Non-trivial: at least one altered and one intact delivery.")
MEASURE = "hash of the deliveries (scheme, degree, faults, bytes delivered) and verdicts"
TIME_UNIT = "network events"
REAL = ["pythonref: falcon.py, falcon_recovery.py, falcon_epervier.py, encoding.py, ffsampling.py, samplerz.py, fft.py, the hash and PRNG modules"]
STUB = ["polyntt (external package, not in the repository: numpy stand-in)", "the randomness of sign() (seeded)",
        "the Keccak permutation of keccak.py (a compiled one, after comparison on sample states; C05 runs the real one)"]
ASSUMPTIONS = ["ring degrees 2 and 4 are left out: they have no security, random signatures verify",
               "the header byte and trailing zero bytes of the compressed part are not authenticated (KAT interoperability)"]
# (recovery and Epervier signatures are the same: only the public keys, hashes of h and of NTT(h), differ)
FAMILY = {"falcon": "falcon", "rec": "rec", "epe": "rec"}
DEGREES = [8, 8, 16, 16, 16, 16, 32, 32, 32, 32, 64, 64, 64, 64, 128, 128, 256, 512, 512, 1024]


def build(d):
    return {"keccakf": cbuild.keccakf(d)}


def pk_bytes(n, h):
    v = 0
    for x in h:
        v = v << 14 | x
    return bytes([{512: 9, 1024: 10}[n]]) + v.to_bytes(n * 14 // 8, "big")


class World:
    def __init__(self, ctx):
        self.crafts = {}
        self.py = pyfalcon.Py(ctx["keccakf"])

    def close(self):
        pass

    def case(self, rng):
        n = rng.choice(DEGREES)
        keys = len(self.py.polys[str(n)])
        signers = []
        for _ in range(rng.choice([1, 2, 2, 3, 4])):
            signers.append([rng.choice(SCHEMES), n if rng.random() < .8 else rng.choice([16, 64, 128]), rng.randrange(keys), rng.choice(XOFS[:2] if rng.random() < .7 else XOFS)])
        pk = []
        for _ in range(rng.choice([1, 2, 2, 3, 4])):
            s = rng.randrange(len(signers))
            room = ROOM[signers[s][3]]
            l = rng.choice([0, 1, 32, 33, 100, 135, 136, 200, 1000, rng.randrange(900)])
            if rng.random() < .06:
                l = rng.choice([room, room, room - 1, room - 40]) if room else rng.choice([4097, 5000, 66000])
            if room is not None:
                l = min(l, room)
            mode = rng.choice(["above", "below", "forge"]) if rng.random() < .15 else None
            pk.append([s, rng.randbytes(l).hex() if rng.random() < .8 else bytes(l).hex(), rng.randrange(1000), mode])
        dl = []
        for _ in range(rng.choice([2, 4, 6, 8, 14])):
            p = rng.randrange(len(pk))
            s = pk[p][0]
            k = rng.choice([0, 1, 1, 1, 1, 2, 3])
            to, xof = s, signers[s][3]
            if rng.random() < .1:
                to = rng.randrange(len(signers))
                xof = rng.choice([xof, signers[to][3]])
            if rng.random() < .03:
                xof = rng.choice(XOFS)
            dl.append({"p": p, "to": to, "xof": xof, "faults": [[rng.choice(KINDS), rng.getrandbits(40)] for _ in range(k)], "other": rng.randrange(len(pk)),
                       "form": rng.choice([0, 0, 0, 1]), "via": rng.choice([0, 0, 0, 1]), "pkbytes": rng.choice([None, None, [], [rng.getrandbits(40)]])})
        return {"signers": signers, "packets": pk, "deliveries": dl}

    def key_id(self, s):
        return (s[1], s[2] % len(self.py.polys[str(s[1])]))

    def crafted(self, scheme, n, i, m, rs, xof, mode):
        k = (scheme, n, i, m, rs, xof, mode)
        if k not in self.crafts:
            if len(self.crafts) > 500:
                self.crafts.clear()
            self.crafts[k] = ref.craft(self.py, random.Random("craft %d" % rs), scheme, n, i, m, xof, mode)
        return self.crafts[k]

    def run(self, case):
        P = self.py
        signers = case["signers"]
        faults, counts, log = {}, {}, []
        bad = None
        sent = []
        truth = {}
        for s, m, rs, mode in case["packets"]:
            scheme, n, _, xof = signers[s]
            _, i = self.key_id(signers[s])
            m = bytes.fromhex(m)
            try:
                sig = None
                if mode:
                    c = self.crafted(scheme, n, i, m, rs, xof, mode)
                    if c:
                        sig, good = c
                        core.add(faults, {"dishonest signer: " + mode: 1})
                if sig is None:
                    sig, good = P.sign(scheme, n, i, m, rs, xof), True
            except Exception as e:
                bad = ("sign", "signing %d bytes with %s, n=%d, %s raised %s: %s" % (len(m), scheme, n, xof, type(e).__name__, e))
                return Outcome(bad, digest(bad), None, faults, counts, 1)
            sent.append((s, m, sig))
            if good:
                truth.setdefault((FAMILY[scheme], n, i, xof), {})[m, pyfalcon.canonical(scheme, n, sig)] = sig
        pks = {}
        intact = altered = 0
        for t, d in enumerate(case["deliveries"]):
            s, m0, sig0 = sent[d["p"] % len(sent)]
            scheme, n = signers[s][:2]
            _, om, osig = sent[d["other"] % len(sent)]
            m, sig = m0, sig0
            for kind, seed in d["faults"]:
                m, sig = pyfalcon.mutate(random.Random(seed), kind, scheme, n, m, sig, om, osig)
                core.add(faults, {kind: 1})
            to = signers[d["to"] % len(signers)]
            vs, vn = to[:2]
            vi = self.key_id(to)[1]
            if d["to"] != s:
                core.add(faults, {"wrong verifier": 1})
            if d["xof"] != signers[s][3]:
                core.add(faults, {"wrong hash": 1})
            other_key = False
            ver = pks.get((vs, vn, vi))
            what = "delivery %d: %s n=%d key %d, %s, message of %d bytes, signature of %d bytes, faults %s" % (
                t, vs, vn, vi, d["xof"], len(m), len(sig), [k for k, _ in d["faults"]])
            if d["pkbytes"] is not None and vs == "falcon" and vn in (512, 1024):
                b = pk_bytes(vn, P.sk("falcon", vn, vi).h)
                b0 = b
                if d["pkbytes"]:
                    r = random.Random(d["pkbytes"][0])
                    w = r.randrange(7)
                    if w == 0:
                        b = bytes([b[0] ^ r.choice([1, 2, 3, 0x80])]) + b[1:]
                    elif w == 1:
                        b = b[:r.choice([len(b) - 1, 0, 1, r.randrange(len(b))])]
                    elif w == 2:
                        b = b + r.choice([b"\0", r.randbytes(7), bytes(896)])
                    elif w == 3:
                        v = int.from_bytes(b[1:], "big")
                        i = 14 * r.randrange(vn)
                        x = v >> i & 0x3FFF
                        v += (min(x + pyfalcon.Q, 0x3FFF) - x) << i
                        b = b[:1] + v.to_bytes(len(b) - 1, "big")
                    else:
                        b = pyfalcon.flip(r, b)
                    core.add(faults, {"public key altered": 1})
                try:
                    ver = P.falcon.PublicKey.from_bytes(b)
                except ValueError as e:
                    if b == b0:
                        bad = ("key refused", "%s: from_bytes refused the public key: %s" % (what, e))
                        break
                    log.append((t, "key refused"))
                    continue
                except Exception as e:
                    bad = ("raised", "%s: from_bytes raised %s: %s" % (what, type(e).__name__, e))
                    break
                other_key = b != b0
                if other_key and list(ver.pk) == list(P.sk("falcon", vn, vi).h) and ver.n == vn:
                    bad = ("key malleable", "%s: altered public key bytes give the same key" % what)
                    break
            elif ver is None:
                ver = pks[vs, vn, vi] = P.new_pk(vs, vn, vi)
            want = None
            if other_key:
                want = False
            else:
                got = truth.get((FAMILY[vs], vn, vi, d["xof"]), {}).get((m, pyfalcon.canonical(vs, vn, sig)))
                if got is None:
                    want = False
                elif got == sig:
                    want = True
            a, b = (bytearray(m), bytearray(sig)) if d["form"] else (m, sig)
            try:
                with P.quiet():
                    if d["via"] and vs != "falcon":
                        v = ver.recover(a, b, xof=P.xof[d["xof"]])
                        v = v is not False and v == P.sk(vs, vn, vi).pk
                    else:
                        v = ver.verify(a, b, xof=P.xof[d["xof"]])
            except Exception as e:
                bad = ("raised", "%s: raised %s: %s" % (what, type(e).__name__, e))
                break
            if (bytes(a), bytes(b)) != (m, sig):
                bad = ("input changed", what)
                break
            v = bool(v)
            if want is True:
                intact += 1
            else:
                altered += 1
            if want is not None and v != want:
                bad = ("accepted" if v else "refused", "%s: returned %s" % (what, v))
                break
            if want is None:
                core.add(counts, {"padding or header altered": 1})
            log.append((t, vs, vn, d["xof"], digest(m, sig), v))
        core.add(counts, {"intact": intact, "altered": altered})
        return Outcome(bad, digest(log, bad), digest(log), faults, counts, len(sent) + len(log), intact > 0 and altered > 0)

    def shrink(self, case):
        for x in core.shrink_list(case["deliveries"], 1):
            yield dict(case, deliveries=x)
        for i, d in enumerate(case["deliveries"]):
            for f in core.shrink_list(d["faults"]):
                yield dict(case, deliveries=case["deliveries"][:i] + [dict(d, faults=f)] + case["deliveries"][i + 1:])
        for i, (s, m, rs, mode) in enumerate(case["packets"]):
            if len(m) > 0:
                for l in (0, len(m) // 4 * 2):
                    yield dict(case, packets=case["packets"][:i] + [[s, m[:l], rs, mode]] + case["packets"][i + 1:])
        for i, s in enumerate(case["signers"]):
            if s[1] > 64:
                yield dict(case, signers=case["signers"][:i] + [[s[0], 64] + s[2:]] + case["signers"][i + 1:])
