"""C05: the Python hash and PRNG streams do not depend on how they are cut up."""
import copy
import os
import pickle
import struct
from sim import core, streams, py
from sim.core import Outcome, digest
from checks.c04 import SIZES, content

ID = "C05"
QUICK, THOROUGH = 60, 1200
ISOLATE = 120
KINDS = ["SHAKE", "KeccakPRNG", "Blake2sPRNG", "KeccaXOF", "DRBG", "ChaCha20"]
LIMIT = {1: 4096, 2: 1024}
RULE = ("A run gives 1-6 objects (SHAKE, KeccakPRNG, Blake2sPRNG, KeccaXOF, AES256_CTR_DRBG, ChaCha20) to a seeded scheduler that "
        "interleaves their 3-50 calls: writes and reads of drawn sizes (weighted to block borders, zero, and the limits), reads with "
        "additional input, calls that must be refused, deep copies that continue separately, a pickle round trip (crash and restart from "
        "saved state), an operating-system entropy source that is simulated and fails at drawn times. After every call the result is "
        "compared with the reference. Non-trivial: an object was written or read at least twice.")
MEASURE = "hash of the sequence (object, call, size) of the run"
TIME_UNIT = "stream calls"
REAL = ["pythonref: shake.py, keccak.py, keccak_prng.py, blake2s_prng.py, keccaxof.py, rng.py, drbg/aes256_ctr_drbg.py"]
STUB = ["os.urandom (simulated entropy)"]
ASSUMPTIONS = ["the Python SHAKE, like the C one, has no way to refuse a call", "ChaCha20.randombytes is asked for at most 512 bytes at a time"]


def build(d):
    return {}


class Obj:
    def __init__(self, kind):
        self.kind, self.real, self.data, self.flipped, self.pos, self.ref, self.left = kind, None, b"", False, 0, None, 0

    def copy(self, how):
        c = Obj(self.kind)
        c.__dict__.update(self.__dict__)
        c.real = pickle.loads(pickle.dumps(self.real)) if how else copy.deepcopy(self.real)
        c.ref = copy.deepcopy(self.ref) if self.kind == 4 else self.ref
        return c


class World:
    def __init__(self, ctx):
        a, b, c, d, e, f = py.load("shake", "keccak_prng", "blake2s_prng", "keccaxof", "drbg.aes256_ctr_drbg", "rng")
        self.drbgmod = e
        self.cls = [a.SHAKE, b.KeccakPRNG, c.Blake2sPRNG, d.KeccaXOF, e.AES256_CTR_DRBG, f.ChaCha20]

    def close(self):
        pass

    def case(self, rng):
        n = rng.choice([1, 2, 2, 3, 4, 6])
        kinds = [rng.choice([0, 1, 1, 2, 2, 3, 3, 4, 5]) for _ in range(n)]
        if rng.random() < .3:
            kinds = [kinds[0]] * n
        ops, state, total = [], [0] * n, [0] * n

        def size():
            return rng.choice(SIZES) if rng.random() < .75 else rng.randrange(1200)

        def data(m):
            return [m, rng.choice([0, 0, 0, 1, 2]), rng.getrandbits(32)]
        for _ in range(rng.choice([3, 6, 10, 20, 30, 50])):
            c = rng.randrange(n)
            k = kinds[c]
            r = rng.random()
            if state[c] == 0 or r < .03:
                if k == 4:
                    seed = rng.choice([None, rng.randbytes(48), rng.randbytes(48), b"\xff" * 48, rng.randbytes(rng.choice([0, 47, 49]))])
                    pers = rng.choice([b"", b"", rng.randbytes(48), rng.randbytes(rng.randrange(48)), rng.randbytes(49)])
                    ops.append([c, "new", seed.hex() if seed is not None else None, pers.hex(), rng.getrandbits(30), rng.random() < .2])
                elif k == 5:
                    from checks.c04 import CARRY
                    seed = streams.shake256(struct.pack("<I", rng.choice(CARRY)), 56) if rng.random() < .3 else rng.randbytes(56)
                    ops.append([c, "new", seed.hex()])
                else:
                    ops.append([c, "new", data(size()) if k == 0 and rng.random() < .3 else None, rng.random() < .5])
                state[c], total[c] = 2 if k in (4, 5) else 1, 0
            elif r < .07:
                ops.append([c, "save"])
            elif r < .11:
                t = rng.choice([i for i in range(n) if kinds[i] == k])
                if t != c:
                    ops.append([c, "copy", t, rng.randrange(2)])
                    state[t], total[t] = state[c], total[c]
            elif k in (1, 2) and r < .2:
                if state[c] == 2:
                    ops.append([c, rng.choice(["in", "flip"]), data(size())])
                else:
                    ops.append([c, "out", size()])
            elif k == 3 and state[c] == 2 and r < .16:
                ops.append([c, "in", data(size())])
            elif state[c] == 1:
                if r < .7:
                    m = size()
                    lim = LIMIT.get(k)
                    if lim and rng.random() < .2:
                        m = max(0, lim - total[c] + rng.choice([-1, 0, 0, 1]))
                    if not lim or total[c] + m <= lim:
                        total[c] += m
                    ops.append([c, "in", data(m)])
                else:
                    ops.append([c, "flip", None])
                    state[c] = 2
            elif k == 4:
                add = rng.choice([None, None, None, b"", rng.randbytes(48), rng.randbytes(rng.randrange(1, 48)), rng.randbytes(49)])
                ops.append([c, "out", size(), add.hex() if add is not None else None])
            elif k == 5:
                ops.append([c, "out", min(512, rng.choice([size(), 1, 7, 8, 9, 15, 16, 56]))])
            elif k in (0, 1, 2) and rng.random() < .01:
                # the block counter passes 256 or (seldom) 65536
                ops.append([c, "out", 8192 + rng.choice([1, 40, 4000]) if k == 0 or rng.random() < .9 else 65536 * 32 + 33])
            else:
                ops.append([c, "out", size()])
        return {"kinds": kinds, "ops": ops}

    def run(self, case):
        kinds = case["kinds"]
        objs = [Obj(k) for k in kinds]
        faults, counts, log, touched = {}, {}, [], {}
        bad = None
        for n, o in enumerate(case["ops"]):
            x, k, call = objs[o[0]], kinds[o[0]], o[1]
            what = "call %d: %s of object %d (%s)" % (n, call, o[0], KINDS[k])
            if x.real is None and call != "new":
                continue
            touched[o[0]] = touched.get(o[0], 0) + 1
            out = exp = None
            refuse = None       # whether the call has to raise
            step = 0
            if call in ("save", "copy"):
                try:
                    y = x.copy(1 if call == "save" else o[3])
                except Exception:
                    # (that these objects can be copied is not part of the property)
                    core.add(counts, {"copies refused": 1})
                    continue
                objs[o[0] if call == "save" else o[2]] = y
                core.add(faults, {"saved and restored" if call == "save" else "object copied": 1})
                continue
            try:
                if call == "new":
                    x.real, x.data, x.flipped, x.pos, x.ref = None, b"", False, 0, None
                    if k == 4:
                        seed = bytes.fromhex(o[2]) if o[2] is not None else None
                        pers = bytes.fromhex(o[3])
                        ent = core.random.Random(o[4]).randbytes(4096)
                        used = []
                        old = os.urandom

                        def urandom(m):
                            if o[5] and seed is None:
                                core.add(faults, {"entropy source failed": 1})
                                raise OSError("simulated")
                            used.append(m)
                            return ent[sum(used) - m:sum(used)]
                        refuse = seed is not None and len(seed) != 48 or len(pers) > 48 or seed is None and o[5]
                        names = [(os, "urandom")] + [(self.drbgmod, a) for a in dir(self.drbgmod) if getattr(self.drbgmod, a) is old]
                        try:
                            for m, a in names:
                                setattr(m, a, urandom)
                            x.real = self.cls[4](seed, pers)
                        finally:
                            for m, a in names:
                                setattr(m, a, old)
                        if seed is None:
                            seed = ent[:48]
                        if not refuse:
                            x.ref = streams.drbg(bytes(a ^ b for a, b in zip(seed, pers.ljust(48, b"\0"))))
                    elif k == 5:
                        refuse = False
                        seed = bytes.fromhex(o[2])
                        x.real = self.cls[5](seed)
                        x.ref, x.left = streams.chacha512(seed), 0
                    else:
                        refuse = False
                        if o[2] is not None:
                            d = content(o[2])
                            x.real = self.cls[0].new(d) if o[3] else self.cls[0](d)
                            x.data = d
                        else:
                            x.real = self.cls[k].new() if o[3] else self.cls[k]()
                elif call == "in":
                    d = content(o[2])
                    if k == 0 and x.flipped:
                        continue
                    refuse = k in (1, 2) and (x.flipped or len(x.data) + len(d) > LIMIT[k]) or k == 3 and x.flipped
                    x.real.update(d)
                    if not refuse:
                        x.data += d
                elif call == "flip":
                    if k == 0 and x.flipped:
                        continue
                    refuse = k in (1, 2) and x.flipped
                    if k in (0, 1, 2, 3):
                        x.real.flip()
                        if k != 3 and not refuse:
                            x.flipped, x.pos = True, 0
                            x.ref = [streams.shake_stream, streams.keccak_prng, streams.blake2s_prng][k](x.data)
                elif call == "out":
                    m = o[2]
                    if k == 0 and not x.flipped:
                        continue
                    if k == 4:
                        add = bytes.fromhex(o[3]) if o[3] is not None else None
                        refuse = add is not None and len(add) > 48
                        out = x.real.random_bytes(m, add) if add is not None else x.real.random_bytes(m)
                        if not refuse:
                            exp = x.ref.random_bytes(m, add)
                    elif k == 5:
                        refuse = False
                        out = x.real.randombytes(m)
                        if m > x.left:
                            x.pos += x.left     # too few bytes left: they are dropped
                            x.left = 512
                        i, off = divmod(x.pos, 512)
                        exp = x.ref(i)[off:off + m]
                        x.left -= m
                        step = m
                    else:
                        refuse = k in (1, 2) and not x.flipped
                        out = x.real.read(m)
                        if k == 3 and not x.flipped:
                            x.flipped, x.ref, x.pos = True, streams.keccaxof(x.data), 0
                        if not refuse:
                            exp, step = x.ref.get(x.pos, m), m
                raised = None
            except Exception as e:
                raised = e
            if refuse:
                core.add(faults, {"refused call": 1})
                if raised is None:
                    bad = ("accepted", what + " did not raise")
            elif raised is not None:
                bad = ("raised", "%s raised %s: %s" % (what, type(raised).__name__, raised))
            elif exp is not None:
                x.pos += step
                if not isinstance(out, (bytes, bytearray)) or bytes(out) != exp:
                    p = [i for i in range(len(exp)) if out[i:i + 1] != exp[i:i + 1]][:1]
                    bad = ("wrong bytes", "%s: %d bytes returned, %d expected; first difference at %s" % (what, len(out), len(exp), p))
            log.append((o[0], KINDS[k], call, o[2] if call in ("out", "in") else 0, out))
            if bad:
                break
        core.add(counts, {"calls": len(log)})
        return Outcome(bad, digest(log, bad), digest([y[:4] for y in log]), faults, counts, len(log), any(v > 1 for v in touched.values()))

    def shrink(self, case):
        for ops in core.shrink_list(case["ops"], 1):
            yield dict(case, ops=ops)
        for i, o in enumerate(case["ops"]):
            if o[1] == "in" and o[2][0] > 0:
                for v in {0, o[2][0] // 2, o[2][0] - 1}:
                    if v < o[2][0]:
                        yield dict(case, ops=case["ops"][:i] + [[o[0], "in", [v] + o[2][1:]]] + case["ops"][i + 1:])
            if o[1] == "out" and o[2] > 0:
                for v in {0, o[2] // 2, o[2] - 1}:
                    if v < o[2]:
                        yield dict(case, ops=case["ops"][:i] + [o[:2] + [v] + o[3:]] + case["ops"][i + 1:])
