"""Reference definitions of the streams, independent of /repo: hashlib's SHAKE256, pycryptodome's
Keccak-256, AES and BLAKE2s, and a plain ChaCha20. Each model is a pure function of the whole input;
the state a simulated object adds is only a position."""
import hashlib
import struct


def shake256(data, n):
    return hashlib.shake_256(data).digest(n)


RC = [0x1, 0x8082, 0x800000000000808A, 0x8000000080008000, 0x808B, 0x80000001, 0x8000000080008081, 0x8000000000008009,
      0x8A, 0x88, 0x80008009, 0x8000000A, 0x8000808B, 0x800000000000008B, 0x8000000000008089, 0x8000000000008003,
      0x8000000000008002, 0x8000000000000080, 0x800A, 0x800000008000000A, 0x8000000080008081, 0x8000000000008080,
      0x80000001, 0x8000000080008008]

try:
    from Crypto.Hash import keccak as _k
    from Crypto.Cipher import AES as _AES

    def keccak256(data):
        return _k.new(digest_bits=256, data=data).digest()
except ImportError:
    raise


def aes_ecb(key, block):
    return _AES.new(key, _AES.MODE_ECB).encrypt(block)


def aes_ctr(key, counter_blocks):
    return _AES.new(key, _AES.MODE_ECB).encrypt(b"".join(counter_blocks))


class Lazy:
    """Output bytes [0, n) of a stream, made block by block on demand."""

    def __init__(self, block):
        self.block, self.buf, self.i = block, bytearray(), 0

    def get(self, pos, n):
        while len(self.buf) < pos + n:
            self.buf += self.block(self.i)
            self.i += 1
        return bytes(self.buf[pos:pos + n])


def keccak_prng(data):
    s = keccak256(data)
    return Lazy(lambda i: keccak256(s + struct.pack(">Q", i)))


def keccaxof(data):
    st = [data]

    def block(i):
        st[0] = keccak256(st[0])
        return st[0]
    return Lazy(block)


def blake2s_prng(data):
    s = hashlib.blake2s(data).digest()
    return Lazy(lambda i: hashlib.blake2s(s + struct.pack(">Q", i)).digest())


def shake_stream(data):
    class S:
        def __init__(self):
            self.buf = b""

        def get(self, pos, n):
            if len(self.buf) < pos + n:
                self.buf = shake256(data, 2 * (pos + n) + 200)
            return self.buf[pos:pos + n]
    return S()


def seedexpander(seed, div, maxlen):
    aes = _AES.new(seed, _AES.MODE_ECB)
    head = div + struct.pack(">I", maxlen)
    return Lazy(lambda i: aes.encrypt(b"".join(head + struct.pack(">I", (i * 256 + j) & 0xFFFFFFFF) for j in range(256))))


def chacha_block(key, ctr):
    """One block of the sampler's ChaCha20: key = 12 words (key and IV), the counter is xored into the last two words of the IV."""
    M = 0xFFFFFFFF
    init = [0x61707865, 0x3320646e, 0x79622d32, 0x6b206574] + list(key)
    init[14] ^= ctr & M
    init[15] ^= ctr >> 32 & M
    s = list(init)

    def q(a, b, c, d):
        s[a] = s[a] + s[b] & M
        x = s[d] ^ s[a]
        s[d] = (x << 16 | x >> 16) & M
        s[c] = s[c] + s[d] & M
        x = s[b] ^ s[c]
        s[b] = (x << 12 | x >> 20) & M
        s[a] = s[a] + s[b] & M
        x = s[d] ^ s[a]
        s[d] = (x << 8 | x >> 24) & M
        s[c] = s[c] + s[d] & M
        x = s[b] ^ s[c]
        s[b] = (x << 7 | x >> 25) & M
    for _ in range(10):
        q(0, 4, 8, 12)
        q(1, 5, 9, 13)
        q(2, 6, 10, 14)
        q(3, 7, 11, 15)
        q(0, 5, 10, 15)
        q(1, 6, 11, 12)
        q(2, 7, 8, 13)
        q(3, 4, 9, 14)
    return [a + b & M for a, b in zip(s, init)]


def chacha512(seed56):
    """The sampler's PRNG: 512-byte refills of eight interleaved blocks. Returns refill(i) -> 512 bytes."""
    w = struct.unpack("<14I", seed56)
    base = w[12] + (w[13] << 32)
    cache = {}

    def refill(i):
        if i not in cache:
            out = [0] * 128
            for u in range(8):
                b = chacha_block(w[:12], base + 8 * i + u & 0xFFFFFFFFFFFFFFFF)
                for v in range(16):
                    out[u + 8 * v] = b[v]
            cache[i] = struct.pack("<128I", *out)
        return cache[i]
    return refill


def drbg(seed48):
    """NIST AES-256-CTR-DRBG without derivation function: generator object with .random_bytes(n, add=None)."""
    class D:
        def __init__(self):
            self.k, self.v = b"\0" * 32, 0
            self.update(seed48)

        def blocks(self, n):
            out = [(self.v + i + 1 & (1 << 128) - 1).to_bytes(16, "big") for i in range(n)]
            self.v = self.v + n & (1 << 128) - 1
            return aes_ctr(self.k, out) if n else b""

        def update(self, data=None):
            t = self.blocks(3)
            if data is not None:
                t = bytes(a ^ b for a, b in zip(t, data))
            self.k, self.v = t[:32], int.from_bytes(t[32:], "big")

        def random_bytes(self, n, add=None):
            if add is not None:
                add = add.ljust(48, b"\0")
                self.update(add)
            r = self.blocks((n + 15) // 16)[:n]
            self.update(add)
            return r
    return D()


def hash_to_point(get2, n, q=12289):
    """The coefficients that the rejection sampler takes from a stream of two-byte reads."""
    out = []
    while len(out) < n:
        w = int.from_bytes(get2(), "big")
        if w < 5 * q:
            out.append(w % q)
    return out
