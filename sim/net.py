"""What an unreliable or hostile network does to signed messages, keys and signatures. All choices come from the given PRNG."""

Q = 12289
NONCE = 40


def flip(rng, b, lo=0, hi=None):
    hi = len(b) if hi is None else min(hi, len(b))
    if hi <= lo:
        return b
    b = bytearray(b)
    b[rng.randrange(lo, hi)] ^= 1 << rng.randrange(8)
    return bytes(b)


def comp_bits(b):
    """Positions of the coefficients in a compressed signature: [(bit of the sign, value)]"""
    n = int.from_bytes(b, "big")
    total = 8 * len(b)

    def bit(i):
        return n >> (total - 1 - i) & 1 if i < total else 0
    pos, out = 0, []
    for _ in range(512):
        p = pos
        if pos + 9 > total:
            break
        v = 0
        for i in range(1, 8):
            v = v << 1 | bit(pos + i)
        pos += 8
        while pos < total and not bit(pos):
            pos += 1
            v += 128
        pos += 1
        out.append((p, v))
    return out, pos


def flipbit(b, i):
    b = bytearray(b)
    if i // 8 < len(b):
        b[i // 8] ^= 0x80 >> (i % 8)
    return bytes(b)


class Signed:
    """The parts of a signed message of the C library: siglen(2) nonce(40) message signature."""

    def __init__(self, sm):
        self.head, self.nonce = sm[:2], sm[2:2 + NONCE]
        n = min(int.from_bytes(self.head, "big"), max(0, len(sm) - 42))
        self.msg, self.sig = sm[42:len(sm) - n], sm[len(sm) - n:]

    def join(self, fix=True):
        if fix:
            self.head = (len(self.sig) & 0xFFFF).to_bytes(2, "big")
        return self.head + self.nonce + self.msg + self.sig


KINDS = ["bit", "byte", "truncate", "extend", "cut", "insert", "splice", "siglen", "boundary", "recode", "pad", "swap", "fill", "message", "many", "header"]


def mutate(rng, kind, sm, other, v):
    """Apply one network fault to a signed message; other: another signed message that the network has seen."""
    s = Signed(sm)
    r = rng.random
    if not sm:
        return rng.randbytes(rng.randrange(1, 50))
    if kind == "bit":
        part = rng.randrange(6)
        n = len(sm)
        ns = len(s.sig)
        lo, hi = [(0, 2), (2, 42), (42, max(43, n - ns)), (n - ns, n - ns + 2), (n - ns, n), (max(0, n - 45), n)][part]
        return flip(rng, sm, min(lo, n - 1), hi)
    if kind == "byte":
        b = bytearray(sm)
        b[rng.randrange(len(b))] = rng.choice([0, 255, 0x29, 0x30, 0x80, rng.randrange(256)])
        return bytes(b)
    if kind == "truncate":
        return sm[:rng.choice([len(sm) - 1, len(sm) - 2, rng.randrange(len(sm)), 0, 1, 2, 41, 42, 43, max(0, len(sm) - rng.randrange(50))])]
    if kind == "extend":
        return sm + rng.choice([b"\0", b"\0\0", b"\xff", rng.randbytes(rng.randrange(1, 60)), bytes(rng.randrange(1, 300)), other])
    if kind == "cut":
        i = rng.randrange(len(sm))
        j = min(len(sm), i + rng.choice([1, 1, 2, rng.randrange(1, 80)]))
        return sm[:i] + sm[j:]
    if kind == "insert":
        i = rng.choice([rng.randrange(len(sm) + 1), 42, len(sm) - len(s.sig)])
        return sm[:i] + rng.choice([b"\0", bytes([rng.randrange(256)]), rng.randbytes(rng.randrange(1, 40))]) + sm[i:]
    if kind == "splice":
        o = Signed(other)
        for part in rng.sample(["head", "nonce", "msg", "sig"], rng.choice([1, 1, 2, 3])):
            setattr(s, part, getattr(o, part))
        return s.join(r() < .7)
    if kind == "siglen":
        n = int.from_bytes(s.head, "big") + rng.choice([1, -1, 2, -2, rng.randrange(-50, 50)])
        if r() < .3:
            n = rng.choice([0, 1, 2, len(sm) - 42, len(sm) - 41, len(sm), 0xFFFF, 0x8000, rng.randrange(65536)])
        return (n & 0xFFFF).to_bytes(2, "big") + sm[2:]
    if kind == "boundary":
        # bytes move between the parts
        k = rng.choice([1, 1, 2, rng.randrange(1, 45)])
        w = rng.randrange(5)
        if w == 4:
            # too short for a nonce, but with a whole signature
            return s.head + s.nonce[:rng.choice([0, 1, 20, 38, 39, rng.randrange(40)])] + s.sig
        if w == 0:
            s.msg, s.sig = s.msg + s.sig[:k], s.sig[k:]
        elif w == 1 and s.msg:
            s.msg, s.sig = s.msg[:-k], s.msg[-k:] + s.sig
        elif w == 2:
            # the nonce and the message are hashed one after the other
            x = s.nonce + s.msg
            s.nonce, s.msg = (x + b"\0" * 40)[:40], x[min(40 + k, len(x)):]
        else:
            s.msg, s.nonce = s.nonce[-k:] + s.msg, s.nonce
        return s.join(r() < .8)
    if kind == "recode":
        # other encodings of the same values
        if v == "n":
            pos, end = comp_bits(s.sig[1:])
            zeros = [p for p, x in pos if x == 0]
            w = rng.randrange(4)
            body = s.sig[1:]
            if w == 0 and zeros:
                body = flipbit(body, rng.choice(zeros))
            elif w == 1 and end % 8:
                body = flipbit(body, rng.randrange(end, (end + 7) // 8 * 8))
            elif w == 2:
                body = body + bytes(rng.randrange(1, 5))
            elif pos:
                body = flipbit(body, rng.choice(pos)[0])
            s.sig = s.sig[:1] + body
            return s.join()
        b = bytearray(s.sig)
        base = rng.choice([1, 1026]) if v == "e" else 1
        w = r()
        # the only coefficient that changes keeps its value modulo q, or 2^15, or its sign is written in another way
        for _ in range(rng.choice([1, 1, 1, 2, 10, 512])):
            i = base + 2 * rng.randrange(512)
            if w < .4:
                # a zero, or one of the other values that are close to where two encodings meet
                vals = [(int.from_bytes(b[j:j + 2], "big"), j) for j in range(base, min(base + 1024, len(b) - 1), 2)]
                good = [j for x, j in vals if x == 0] if w < .25 else [j for x, j in vals if min(x, abs(Q - x)) < 5]
                if good:
                    i = rng.choice(good)
            if i + 2 > len(b):
                break
            x = int.from_bytes(b[i:i + 2], "big")
            y = rng.choice([x + Q, x - Q, x ^ 0x8000, 0x10000 - x, (Q - x), x + 2 * Q, x ^ 0x4000])
            b[i:i + 2] = (y & 0xFFFF).to_bytes(2, "big")
        s.sig = bytes(b)
        return s.join()
    if kind == "pad":
        s.sig += rng.choice([bytes(rng.randrange(1, 4)), bytes(rng.randrange(1, 200)), b"\x80", b"\x01"])
        return s.join()
    if kind == "swap":
        if v == "e" and len(s.sig) >= 2052:
            s.sig = s.sig[1025:2050] + s.sig[:1025] + s.sig[2050:]
            return s.join()
        i, j = sorted(rng.sample(range(len(sm) + 1), 2))
        return sm[j:] + sm[i:j] + sm[:i]
    if kind == "fill":
        i = rng.choice([rng.randrange(len(sm)), len(sm) - len(s.sig), len(sm) - len(s.sig) + 1 if len(s.sig) > 1 else 0])
        j = min(len(sm), i + rng.choice([1, 8, 100, 2000]))
        return sm[:i] + rng.choice([b"\0", b"\xff", b"\x29", b"\x7f"]) * (j - i) + sm[j:]
    if kind == "message":
        m = bytearray(s.msg)
        w = rng.randrange(5)
        if w == 0 and m:
            m[-1 - rng.randrange(min(len(m), 200))] ^= 1 << rng.randrange(8)
        elif w == 1 and m:
            m[rng.randrange(len(m))] ^= 1 << rng.randrange(8)
        elif w == 2:
            m += rng.choice([b"\0", rng.randbytes(1), rng.randbytes(rng.randrange(1, 300))])
        elif w == 3:
            m = m[:-1]
        else:
            m = bytearray(Signed(other).msg)
        s.msg = bytes(m)
        return s.join(False)
    if kind == "header":
        b = bytearray(sm)
        n = len(sm) - len(s.sig)
        i = rng.choice([0, 1, n, n + 1025 if v == "e" else n])
        if i < len(b):
            b[i] = rng.choice([b[i] ^ 1 << rng.randrange(8), 0, 0xFF, 0x29, 0x39, 0x30, 0x20, 0x59, 9])
        return bytes(b)
    if kind == "many":
        b = bytearray(sm)
        for _ in range(rng.randrange(2, 40)):
            b[rng.randrange(len(b))] ^= 1 << rng.randrange(8)
        return bytes(b)
    raise ValueError(kind)


def mutate_pk(rng, pk, v):
    w = rng.randrange(4)
    b = bytearray(pk)
    if w == 0:
        b[0] ^= 1 << rng.randrange(8)
    elif w == 1 and v != "n":
        i = 1 + 2 * rng.randrange(512)
        x = int.from_bytes(b[i:i + 2], "big")
        y = rng.choice([x + Q, x + 2 * Q, x + 3 * Q, x ^ 0x8000])
        b[i:i + 2] = (y & 0xFFFF).to_bytes(2, "big")
    elif w == 1:
        # a 14-bit value out of range
        n = int.from_bytes(b[1:], "big")
        i = 14 * rng.randrange(512)
        x = n >> i & 0x3FFF
        y = x + Q if x + Q < 0x4000 else 0x3FFF
        n += (y - x) << i
        b[1:] = n.to_bytes(len(b) - 1, "big")
    else:
        b = bytearray(flip(rng, bytes(b), 1))
    return bytes(b)
