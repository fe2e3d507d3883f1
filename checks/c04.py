"""C04: the C hash and PRNG streams do not depend on how they are cut up."""
import ctypes
import struct
from sim import core, cbuild, streams
from sim.core import Outcome, digest
from sim.huge import Huge, length

ID = "C04"
QUICK, THOROUGH = 60, 1200
ISOLATE = 60
RULE = ("A run gives 1-6 contexts (SHAKE256, Keccak-256 PRNG, seed expander, ChaCha20 PRNG, Keccak-256 hash, in memory with drawn garbage) "
        "to a seeded scheduler that interleaves their 3-60 calls: writes and reads of drawn sizes (weighted to block borders, zero, and "
        "the 4096-byte limit), integer reads, hash-to-point reads, calls that must be refused, copies of a context that continue "
        "separately, contexts moved in memory, and re-initialisations. After every call the result, the guard bytes around the output and "
        "the context, and the input are compared with the reference. Rarely, one seed-expander request of 2 or 4 GiB and a little. Non-trivial: a context was written or read in at least two calls.")
MEASURE = "hash of the sequence (context, call, size class) of the run"
TIME_UNIT = "stream calls"
REAL = ["shake.c, keccak_prng.c, keccak256.c, rng.c, common.c (hash-to-point), seed expander of katrng.c"]
STUB = ["AES (in the requests of 2 GiB and more)"]
ASSUMPTIONS = ["a seed-expander read of exactly the remaining length may be refused or served (the NIST interface refuses it)",
               "SHAKE256 has no way to refuse a call: only sequences init, writes, flip, reads are made"]
SIZES = [0, 0, 1, 1, 2, 7, 8, 9, 15, 16, 17, 31, 32, 33, 40, 56, 63, 64, 65, 100, 127, 128, 129, 134, 135, 136, 137, 138, 199, 200, 255, 256, 257, 271, 272, 273, 503, 504,
         505, 511, 512, 513, 1000, 1023, 1024, 1025, 2048, 4095, 4096, 4097, 5000]
# found by search: the low half of the block counter of a ChaCha20 PRNG seeded from SHAKE256(these 4 bytes) overflows within the first 8 refills
CARRY = [139309446, 35101401, 44931629, 45832519, 118606907, 198460599, 169098689, 242712121, 243803368, 246881885]


def build(d):
    return {False: cbuild.clib(d, False, [cbuild.VERIF + "/csim/streams.c"], "streams"),
            True: cbuild.clib(d, True, [cbuild.VERIF + "/csim/streams.c"], "streams"), "dir": d}


def content(spec):
    """Bytes from their description: [n, kind, seed]."""
    n, kind, s = spec
    if kind == 0:
        return core.random.Random(s).randbytes(n)
    if kind == 1:
        return bytes([s & 255]) * n
    return bytes((i * 7 + s) & 255 for i in range(n))


GUARD = bytes(range(160, 160 + 32))


class Mem:
    """Memory with guard bytes on both sides. The offset decides the alignment (8-byte aligned for contexts)."""

    def __init__(self, n, fill, off=0):
        self.n, self.off = n, 32 + off
        self.buf = ctypes.create_string_buffer(GUARD + bytes(off) + fill + GUARD, n + off + 64)
        self.addr = ctypes.addressof(self.buf) + self.off

    def get(self):
        return self.buf.raw[self.off:self.off + self.n]

    def ok(self):
        return self.buf.raw[:32] == GUARD and self.buf.raw[self.off + self.n:] == GUARD


class Ctx:
    """A real context and its model."""

    def __init__(self, kind, size, fill):
        self.kind, self.size = kind, size
        self.mem = Mem(size, content([size, 0, fill]))
        self.data, self.flipped, self.pos, self.ref, self.maxlen, self.refills, self.dead = b"", False, 0, None, 0, None, True

    def copy(self, fill):
        c = Ctx(self.kind, self.size, fill)
        ctypes.memmove(c.mem.addr, self.mem.addr, self.size)
        for k in ("data", "flipped", "pos", "ref", "maxlen", "refills", "dead"):
            setattr(c, k, getattr(self, k))
        return c


KINDS = ["shake", "kp", "se", "cc", "kh"]


class World:
    def __init__(self, ctx):
        self.lib = {}
        self.huge = Huge(ctx["dir"])
        for e in (False, True):
            so = ctx[e]
            L = ctypes.CDLL(so)
            L.vs_size.restype = ctypes.c_size_t
            L.vs_cc_u64.restype = ctypes.c_uint64
            L.vs_cc_u8.restype = ctypes.c_uint
            self.lib[e] = L

    def close(self):
        pass

    def case(self, rng):
        if rng.random() < 1 / 15000:
            return {"huge": length(rng)}
        nctx = rng.choice([1, 2, 2, 3, 4, 6])
        kinds = [rng.choice([0, 1, 2, 3, 4]) for _ in range(nctx)]
        if rng.random() < .3:
            kinds = [kinds[0]] * nctx
        ops = []
        state = [0] * nctx       # 0 fresh, 1 input, 2 output
        total = [0] * nctx
        big = rng.random() < .15

        def size():
            if rng.random() < .75:
                n = rng.choice(SIZES)
            else:
                n = rng.randrange(1200)
            return n

        def data(n):
            return [n, rng.choice([0, 0, 0, 1, 2]), rng.getrandbits(32)]
        for _ in range(rng.choice([3, 6, 10, 20, 40, 60])):
            c = rng.randrange(nctx)
            k = kinds[c]
            r = rng.random()
            if state[c] == 0 or r < .04:
                if k == 2:
                    maxlen = rng.choice([0, 1, 2, 15, 16, 17, 33, 100, 4096, 65537, (1 << 24) + 3, (1 << 32) - 1, 1 << 32, (1 << 32) + 5, rng.randrange(1 << 33)])
                    ops.append([c, "init", rng.randbytes(32).hex(), rng.randbytes(8).hex(), maxlen])
                    state[c] = 2
                elif k == 3:
                    seed = bytearray(rng.randbytes(rng.choice([0, 1, 48, 56, 56, 136])))
                    skip = rng.choice([0, 0, 1, 80, 100])
                    if rng.random() < .3:
                        seed, skip = struct.pack("<I", rng.choice(CARRY)), 0
                    ops.append([c, "init", seed.hex(), skip])
                    state[c] = 2
                else:
                    ops.append([c, "init"])
                    state[c], total[c] = 1, 0
            elif r < .08:
                ops.append([c, "move", rng.getrandbits(30)])
            elif r < .12:
                t = rng.choice([i for i in range(nctx) if kinds[i] == k])
                if t != c:
                    ops.append([c, "copy", t, rng.getrandbits(30)])
                    state[t], total[t] = state[c], total[c]
            elif k == 1 and r < .22:
                ops.append([c, rng.choice(["null_in", "null_out", "null_flip", "null_init"] + (["in", "flip"] if state[c] == 2 else ["out"])) , *([data(size())] if 0 else [])])
                o = ops[-1]
                if o[1] == "in":
                    o.append(data(size()))
                elif o[1] == "out":
                    o += [size(), rng.randrange(8)]
            elif k == 2 and r < .16:
                ops.append([c, "null_out", size()])
            elif state[c] == 1:
                if r < .72:
                    n = size()
                    if k == 1 and rng.random() < .2:
                        n = max(0, 4096 - total[c] + rng.choice([-1, 0, 0, 1]))
                    if total[c] + n <= 4096:
                        total[c] += n
                    ops.append([c, "in", data(n)])
                elif k == 4:
                    ops.append([c, "final"])
                    state[c] = 0
                else:
                    ops.append([c, "flip"])
                    state[c] = 2
            else:
                if k == 3 and r < .6:
                    ops.append([c, rng.choice(["u64", "u8"]), rng.choice([1, 1, 2, 5, 62, 63, 64, rng.randrange(1, 90)])])
                elif k in (0, 1) and r < .3:
                    ops.append([c, "point", rng.choice([1, 3, 9, 10])])
                elif k == 0 and r < .36:
                    ops.append([c, "point_ct", rng.choice([1, 3, 6, 7, 9, 10])])
                    state[c] = 0
                elif k == 1 and big and rng.random() < .25:
                    # the block counter passes 256 or (once in a run) 65536
                    ops.append([c, "out", rng.choice([8192 + 5, 8192 + 64, 20000] if rng.random() < .9 or any(o[1] == "out" and o[2] > 1 << 20 for o in ops) else [8192 + 5, 65536 * 32 + 33]), 0])
                elif k == 0 and big and rng.random() < .1:
                    ops.append([c, "out", rng.choice([136 * 256 + 1, 65536 * 8 + 3]), 0])
                elif k == 2 and big and rng.random() < .3:
                    ops.append([c, "out", rng.choice([16 * 256, 16 * 256 + 1, 16 * 65536, 65536 * 16 + 7, 300000]), 0])
                else:
                    ops.append([c, "out", size(), rng.randrange(8)])
        return {"eth": rng.random() < .3, "kinds": kinds, "fills": [rng.getrandbits(30) for _ in kinds], "ops": ops}

    def run_huge(self, c):
        out = Outcome(digest=digest(c), key=digest(c), nontrivial=True)
        bad, tried = self.huge.run(False, ["se", c["huge"]], limit=45)
        out.counts["requests of 2 GiB and more" + ("" if tried else ", not decided")] = 1
        if bad:
            out.bad = ("a long request fails", "%d bytes: %s" % (c["huge"], bad))
        return out

    def run(self, case):
        if "huge" in case:
            return self.run_huge(case)
        L = self.lib[case["eth"]]
        kinds = case["kinds"]
        cs = [Ctx(k, L.vs_size(k), f) for k, f in zip(kinds, case["fills"])]
        faults, counts, log, touched = {}, {}, [], {}
        bad = None

        def refused(r, c, before, what):
            core.add(faults, {"refused call": 1})
            if r == 0:
                return ("accepted", "%s returned 0" % what)
            if c.mem.get() != before:
                # padding may change, so the state is judged by what comes next
                core.add(counts, {"context bytes changed by a refused call": 1})

        for n, o in enumerate(case["ops"]):
            c, k = cs[o[0]], kinds[o[0]]
            name = KINDS[k]
            what = "call %d: %s of context %d (%s)" % (n, o[1], o[0], name)
            call = o[1]
            if c.dead and call != "init":
                continue
            A = ctypes.c_void_p(c.mem.addr)
            before = c.mem.get()
            out = exp = None
            served = True
            touched[o[0]] = touched.get(o[0], 0) + 1
            if call == "init":
                c.data, c.flipped, c.pos, c.dead, c.refills = b"", False, 0, False, None
                if k == 2:
                    seed, div, maxlen = bytes.fromhex(o[2]), bytes.fromhex(o[3]), o[4]
                    ms, md = Mem(32, seed), Mem(8, div)
                    r = L.vs_se_init(A, ctypes.c_void_p(ms.addr), ctypes.c_void_p(md.addr), ctypes.c_ulong(maxlen))
                    if maxlen >= 1 << 32:
                        core.add(faults, {"refused call": 1})
                        if r == 0:
                            bad = ("accepted", "%s with maxlen %d returned 0" % (what, maxlen))
                        c.dead = True
                    elif r != 0:
                        bad = ("refused", "%s returned %d" % (what, r))
                    if ms.get() != seed or md.get() != div or not (ms.ok() and md.ok()):
                        bad = bad or ("input changed", what)
                    c.ref, c.maxlen = streams.seedexpander(seed, div, maxlen & 0xFFFFFFFF), maxlen
                elif k == 3:
                    seed, skip = bytes.fromhex(o[2]), o[3]
                    sh = Mem(L.vs_size(0), bytes(L.vs_size(0)))
                    S = ctypes.c_void_p(sh.addr)
                    L.vs_shake_init(S)
                    L.vs_shake_in(S, seed, ctypes.c_size_t(len(seed)))
                    L.vs_shake_flip(S)
                    if skip:
                        t = ctypes.create_string_buffer(skip)
                        L.vs_shake_out(S, t, ctypes.c_size_t(skip))
                    L.vs_cc_init(A, S)
                    # the source of the seed goes on where the seed ended
                    t = ctypes.create_string_buffer(40)
                    L.vs_shake_out(S, t, ctypes.c_size_t(40))
                    st = streams.shake256(seed, skip + 96)
                    if t.raw != st[skip + 56:]:
                        bad = ("wrong bytes", what + ": the seed source continues at the wrong position")
                    c.refills = streams.chacha512(st[skip:skip + 56])
                    c.pos = 0
                elif k == 1:
                    r = L.vs_kp_init(A)
                    if r:
                        bad = ("refused", "%s returned %d" % (what, r))
                elif k == 0:
                    L.vs_shake_init(A)
                else:
                    L.vs_kh_init(A)
            elif call == "move":
                m = Mem(c.size, content([c.size, 0, o[2]]))
                ctypes.memmove(m.addr, c.mem.addr, c.size)
                ctypes.memset(c.mem.addr, 0xEE, c.size)
                c.mem = m
                core.add(faults, {"context moved": 1})
            elif call == "copy":
                cs[o[2]] = c.copy(o[3])
                core.add(faults, {"context copied": 1})
            elif call == "null_init":
                bad = refused(L.vs_kp_init(None), c, before, what)
            elif call == "null_flip":
                bad = refused(L.vs_kp_flip(None), c, before, what)
            elif call == "null_in":
                bad = refused(L.vs_kp_in(A, None, ctypes.c_size_t(5)), c, before, what)
                bad = bad or refused(L.vs_kp_in(None, b"12345", ctypes.c_size_t(5)), c, before, what)
            elif call == "null_out":
                if k == 2:
                    bad = refused(L.vs_se_out(A, None, ctypes.c_ulong(o[2])), c, before, what)
                else:
                    t = ctypes.create_string_buffer(b"7" * 8, 8)
                    bad = refused(L.vs_kp_out(A, None, ctypes.c_size_t(5)), c, before, what)
                    bad = bad or refused(L.vs_kp_out(None, t, ctypes.c_size_t(5)), c, before, what)
                    if t.raw != b"7" * 8:
                        bad = bad or ("wrong bytes", what + ": a refused read wrote")
            elif call == "in":
                d = content(o[2])
                m = Mem(len(d), d, o[2][2] % 8)
                P, N = ctypes.c_void_p(m.addr), ctypes.c_size_t(len(d))
                if k == 0:
                    L.vs_shake_in(A, P, N)
                    c.data += d
                elif k == 4:
                    L.vs_kh_in(A, P, ctypes.c_uint(len(d)))
                    c.data += d
                elif c.flipped or len(c.data) + len(d) > 4096:
                    bad = refused(L.vs_kp_in(A, P, N), c, before, what + " (%d bytes after %d%s)" % (len(d), len(c.data), ", flipped" if c.flipped else ""))
                else:
                    r = L.vs_kp_in(A, P, N)
                    if r:
                        bad = ("refused", "%s: %d bytes after %d: returned %d" % (what, len(d), len(c.data), r))
                    c.data += d
                if m.get() != d or not m.ok():
                    bad = bad or ("input changed", what)
            elif call == "flip":
                if k == 1:
                    if c.flipped:
                        bad = refused(L.vs_kp_flip(A), c, before, what)
                    else:
                        r = L.vs_kp_flip(A)
                        if r:
                            bad = ("refused", "%s returned %d" % (what, r))
                        c.flipped, c.ref, c.pos = True, streams.keccak_prng(c.data), 0
                elif k == 0 and not c.flipped:
                    L.vs_shake_flip(A)
                    c.flipped, c.ref, c.pos = True, streams.shake_stream(c.data), 0
            elif call == "final" and k == 4:
                m = Mem(32, bytes(32))
                L.vs_kh_out(A, ctypes.c_void_p(m.addr))
                out, exp = m.get(), streams.keccak256(c.data)
                if not m.ok():
                    bad = ("overrun", what)
                c.dead = True
            elif call in ("point", "point_ct"):
                if c.flipped:
                    nn = 1 << o[2]
                    m = Mem(2 * nn, b"\xAA" * (2 * nn))
                    P = ctypes.c_void_p(m.addr)
                    f = {(0, "point"): L.vs_shake_point, (0, "point_ct"): L.vs_shake_point_ct, (1, "point"): L.vs_kp_point}[k, call]
                    f(A, P, ctypes.c_uint(o[2]))

                    def two():
                        x = c.ref.get(c.pos, 2)
                        c.pos += 2
                        return x
                    exp = struct.pack("<%dH" % nn, *streams.hash_to_point(two, nn))
                    out = m.get()
                    if not m.ok():
                        bad = ("overrun", what)
                    if call == "point_ct":
                        c.dead = True    # (where it stops reading is not specified)
            elif call in ("u64", "u8"):
                if c.refills is not None:
                    got, want = [], []
                    for _ in range(o[2]):
                        i, off = divmod(c.pos, 512)
                        if call == "u64":
                            got.append(L.vs_cc_u64(A))
                            # fewer than ten bytes left: they are dropped
                            if off >= 503:
                                i, off = i + 1, 0
                            want.append(int.from_bytes(c.refills(i)[off:off + 8], "little"))
                            c.pos = i * 512 + off + 8
                        else:
                            got.append(L.vs_cc_u8(A))
                            want.append(c.refills(i)[off])
                            c.pos += 1
                    out, exp = repr(got).encode(), repr(want).encode()
            elif call == "out":
                nn = o[2]
                m = Mem(nn, b"\xAA" * nn, o[3])
                P = ctypes.c_void_p(m.addr)
                if k == 0 and c.flipped:
                    L.vs_shake_out(A, P, ctypes.c_size_t(nn))
                    exp = c.ref.get(c.pos, nn)
                elif k == 1:
                    r = L.vs_kp_out(A, P, ctypes.c_size_t(nn))
                    if not c.flipped:
                        core.add(faults, {"refused call": 1})
                        if r == 0:
                            bad = ("accepted", what + " before flip returned 0")
                        exp, served = b"\xAA" * nn, False
                    else:
                        if r:
                            bad = ("refused", "%s returned %d" % (what, r))
                        exp = c.ref.get(c.pos, nn)
                elif k == 2:
                    left = c.maxlen - c.pos
                    r = L.vs_se_out(A, P, ctypes.c_ulong(nn))
                    if nn > left or nn == left and r:
                        core.add(faults, {"refused call": 1})
                        if r == 0:
                            bad = ("accepted", "%s: %d bytes with %d left returned 0" % (what, nn, left))
                        exp, served = b"\xAA" * nn, False
                    else:
                        if r:
                            bad = ("refused", "%s: %d bytes with %d left returned %d" % (what, nn, left, r))
                        exp = c.ref.get(c.pos, nn)
                elif k == 3 and c.refills is not None:
                    L.vs_cc_out(A, P, ctypes.c_size_t(nn))
                    exp = b"".join(c.refills(i) for i in range(c.pos // 512, (c.pos + nn) // 512 + 1))[c.pos % 512:c.pos % 512 + nn]
                if exp is not None:
                    out = m.get()
                    if served:
                        c.pos += nn
                if not m.ok():
                    bad = bad or ("overrun", "%s: wrote outside the %d bytes of the output" % (what, nn))
            if not bad and exp is not None and out != exp:
                p = next(i for i in range(len(exp)) if out[i:i + 1] != exp[i:i + 1])
                bad = ("wrong bytes", "%s: differs from the reference at byte %d of %d" % (what, p, len(exp)))
            if not bad and not all(x.mem.ok() for x in cs):
                bad = ("overrun", what + ": wrote outside a context")
            log.append((o[0], name, call, o[2][0] if call == "in" else o[2] if call in ("out", "point", "u64", "u8") else 0, out))
            if bad:
                break
        core.add(counts, {"calls": len(log)})
        return Outcome(bad, digest(log, bad), digest([x[:4] for x in log]), faults, counts, len(log), any(v > 1 for v in touched.values()))

    def shrink(self, case):
        if "huge" in case:
            return
        for ops in core.shrink_list(case["ops"], 1):
            yield dict(case, ops=ops)
        for i, o in enumerate(case["ops"]):
            if o[1] == "in" and o[2][0] > 0:
                for v in {0, o[2][0] // 2, o[2][0] - 1}:
                    if v < o[2][0]:
                        yield dict(case, ops=case["ops"][:i] + [[o[0], "in", [v] + o[2][1:]]] + case["ops"][i + 1:])
            if o[1] in ("out", "u64", "u8") and o[2] > 0:
                for v in {0 if o[1] == "out" else 1, o[2] // 2, o[2] - 1}:
                    if v < o[2]:
                        yield dict(case, ops=case["ops"][:i] + [o[:2] + [v] + o[3:]] + case["ops"][i + 1:])
