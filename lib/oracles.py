"""Digests, written from their definitions (hashlib where it has them), as the judge for C17.

Nothing here comes from the crates that the library uses."""
import hashlib
import struct

M32 = 0xFFFFFFFF
M64 = 0xFFFFFFFFFFFFFFFF


def rotl32(x, n):
    return ((x << n) | (x >> (32 - n))) & M32


def rotl64(x, n):
    n %= 64
    return ((x << n) | (x >> (64 - n))) & M64 if n else x & M64


# ---- SipHash-1-3 with a zero key: what std's DefaultHasher is --------------------------------

def sip13(m):
    v0, v1, v2, v3 = (0x736F6D6570736575, 0x646F72616E646F6D, 0x6C7967656E657261, 0x7465646279746573)

    def rnd(v0, v1, v2, v3):
        v0 = (v0 + v1) & M64
        v1 = rotl64(v1, 13) ^ v0
        v0 = rotl64(v0, 32)
        v2 = (v2 + v3) & M64
        v3 = rotl64(v3, 16) ^ v2
        v0 = (v0 + v3) & M64
        v3 = rotl64(v3, 21) ^ v0
        v2 = (v2 + v1) & M64
        v1 = rotl64(v1, 17) ^ v2
        v2 = rotl64(v2, 32)
        return v0, v1, v2, v3

    end = len(m) - len(m) % 8
    for i in range(0, end, 8):
        w = struct.unpack_from("<Q", m, i)[0]
        v3 ^= w
        v0, v1, v2, v3 = rnd(v0, v1, v2, v3)
        v0 ^= w
    w = int.from_bytes(m[end:], "little") | ((len(m) & 0xFF) << 56)
    v3 ^= w
    v0, v1, v2, v3 = rnd(v0, v1, v2, v3)
    v0 ^= w
    v2 ^= 0xFF
    for _ in range(3):
        v0, v1, v2, v3 = rnd(v0, v1, v2, v3)
    return struct.pack("<Q", v0 ^ v1 ^ v2 ^ v3)


# ---- FxHash (64 bit): depends on how the input is split into chunks --------------------------

def fxhash(chunks):
    h = 0

    def add(h, w):
        return ((rotl64(h, 5) ^ w) * 0x517CC1B727220A95) & M64

    for c in chunks:
        i = 0
        while len(c) - i >= 8:
            h = add(h, struct.unpack_from("<Q", c, i)[0])
            i += 8
        if len(c) - i >= 4:
            h = add(h, struct.unpack_from("<I", c, i)[0])
            i += 4
        for b in c[i:]:
            h = add(h, b)
    return struct.pack("<Q", h)


# ---- SeaHash, default seeds ------------------------------------------------------------------

def seahash(m):
    s = [0x16F11FE89B0D677C, 0xB480A793D8E6C86C, 0x6FE2E5AAF078EBC9, 0x14F994A4C5259381]

    def diffuse(x):
        x = (x * 0x6EED0E9DA4D94A4F) & M64
        x ^= (x >> 32) >> (x >> 60)
        return (x * 0x6EED0E9DA4D94A4F) & M64

    j = 0
    for i in range(0, len(m), 8):
        w = int.from_bytes(m[i:i + 8], "little")
        s[j] = diffuse(s[j] ^ w)
        j = (j + 1) % 4
    return struct.pack("<Q", diffuse(s[0] ^ s[1] ^ s[2] ^ s[3] ^ len(m)))


# ---- Keccak ----------------------------------------------------------------------------------

RC = []
_r = 1
for _i in range(24):
    rc = 0
    for _j in range(7):
        if _r & 1:
            rc |= 1 << ((1 << _j) - 1)
        _r = (_r << 1) ^ (0x171 if _r & 0x80 else 0)
    RC.append(rc)


def keccak_f(a):
    for rnd in range(24):
        c = [a[x] ^ a[x + 5] ^ a[x + 10] ^ a[x + 15] ^ a[x + 20] for x in range(5)]
        d = [c[(x + 4) % 5] ^ rotl64(c[(x + 1) % 5], 1) for x in range(5)]
        a = [a[i] ^ d[i % 5] for i in range(25)]
        x, y, cur = 1, 0, a[1]
        for t in range(24):
            x, y = y, (2 * x + 3 * y) % 5
            cur, a[x + 5 * y] = a[x + 5 * y], rotl64(cur, (t + 1) * (t + 2) // 2)
        b = a[:]
        for y in range(0, 25, 5):
            for x in range(5):
                a[y + x] = b[y + x] ^ (~b[y + (x + 1) % 5] & M64 & b[y + (x + 2) % 5])
        a[0] ^= RC[rnd]
    return a


def sponge(m, rate, suffix, out):
    m = bytearray(m)
    m.append(suffix)
    while len(m) % rate:
        m.append(0)
    m[-1] |= 0x80
    a = [0] * 25
    for i in range(0, len(m), rate):
        for j in range(rate // 8):
            a[j] ^= struct.unpack_from("<Q", m, i + 8 * j)[0]
        a = keccak_f(a)
    r = b""
    while True:
        r += b"".join(struct.pack("<Q", x) for x in a[:rate // 8])
        if len(r) >= out:
            return r[:out]
        a = keccak_f(a)


# ---- MD2, MD4 --------------------------------------------------------------------------------

MD2S = [41, 46, 67, 201, 162, 216, 124, 1, 61, 54, 84, 161, 236, 240, 6, 19, 98, 167, 5, 243, 192, 199, 115, 140, 152, 147, 43, 217, 188, 76, 130, 202, 30, 155, 87, 60, 253, 212, 224, 22, 103, 66, 111, 24, 138, 23, 229, 18, 190, 78, 196, 214, 218, 158, 222, 73, 160, 251, 245, 142, 187, 47, 238, 122, 169, 104, 121, 145, 21, 178, 7, 63, 148, 194, 16, 137, 11, 34, 95, 33, 128, 127, 93, 154, 90, 144, 50, 39, 53, 62, 204, 231, 191, 247, 151, 3, 255, 25, 48, 179, 72, 165, 181, 209, 215, 94, 146, 42, 172, 86, 170, 198, 79, 184, 56, 210, 150, 164, 125, 182, 118, 252, 107, 226, 156, 116, 4, 241, 69, 157, 112, 89, 100, 113, 135, 32, 134, 91, 207, 101, 230, 45, 168, 2, 27, 96, 37, 173, 174, 176, 185, 246, 28, 70, 97, 105, 52, 64, 126, 15, 85, 71, 163, 35, 221, 81, 175, 58, 195, 92, 249, 206, 186, 197, 234, 38, 44, 83, 13, 110, 133, 40, 132, 9, 211, 223, 205, 244, 65, 129, 77, 82, 106, 220, 55, 200, 108, 193, 171, 250, 36, 225, 123, 8, 12, 189, 177, 74, 120, 136, 149, 139, 227, 99, 232, 109, 233, 203, 213, 254, 59, 0, 29, 57, 242, 239, 183, 14, 102, 88, 208, 228, 166, 119, 114, 248, 235, 117, 75, 10, 49, 68, 80, 180, 143, 237, 31, 26, 219, 153, 141, 51, 159, 17, 131, 20]


def md2(m):
    n = 16 - len(m) % 16
    m = bytes(m) + bytes([n]) * n
    c = [0] * 16
    last = 0
    for i in range(0, len(m), 16):
        for j in range(16):
            c[j] ^= MD2S[m[i + j] ^ last]
            last = c[j]
    m += bytes(c)
    x = [0] * 48
    for i in range(0, len(m), 16):
        for j in range(16):
            x[16 + j] = m[i + j]
            x[32 + j] = x[16 + j] ^ x[j]
        t = 0
        for j in range(18):
            for k in range(48):
                x[k] ^= MD2S[t]
                t = x[k]
            t = (t + j) % 256
    return bytes(x[:16])


def pad64(m, big=False):
    n = len(m) * 8
    m = bytes(m) + b"\x80"
    m += b"\0" * ((56 - len(m)) % 64)
    return m + struct.pack(">Q" if big else "<Q", n)


def md4(m):
    a0, b0, c0, d0 = 0x67452301, 0xEFCDAB89, 0x98BADCFE, 0x10325476
    m = pad64(m)
    for i in range(0, len(m), 64):
        x = struct.unpack_from("<16I", m, i)
        a, b, c, d = a0, b0, c0, d0
        for j in range(16):
            a = rotl32((a + ((b & c) | (~b & d)) + x[j]) & M32, (3, 7, 11, 19)[j % 4])
            a, b, c, d = d, a, b, c
        for j in range(16):
            k = (j % 4) * 4 + j // 4
            a = rotl32((a + ((b & c) | (b & d) | (c & d)) + x[k] + 0x5A827999) & M32, (3, 5, 9, 13)[j % 4])
            a, b, c, d = d, a, b, c
        for j in range(16):
            k = (0, 8, 4, 12, 2, 10, 6, 14, 1, 9, 5, 13, 3, 11, 7, 15)[j]
            a = rotl32((a + (b ^ c ^ d) + x[k] + 0x6ED9EBA1) & M32, (3, 9, 11, 15)[j % 4])
            a, b, c, d = d, a, b, c
        a0, b0, c0, d0 = (a0 + a) & M32, (b0 + b) & M32, (c0 + c) & M32, (d0 + d) & M32
    return struct.pack("<4I", a0, b0, c0, d0)


# ---- RIPEMD-320 ------------------------------------------------------------------------------

RL = [
    [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15],
    [7, 4, 13, 1, 10, 6, 15, 3, 12, 0, 9, 5, 2, 14, 11, 8],
    [3, 10, 14, 4, 9, 15, 8, 1, 2, 7, 0, 6, 13, 11, 5, 12],
    [1, 9, 11, 10, 0, 8, 12, 4, 13, 3, 7, 15, 14, 5, 6, 2],
    [4, 0, 5, 9, 7, 12, 2, 10, 14, 1, 3, 8, 11, 6, 15, 13],
]
RR = [
    [5, 14, 7, 0, 9, 2, 11, 4, 13, 6, 15, 8, 1, 10, 3, 12],
    [6, 11, 3, 7, 0, 13, 5, 10, 14, 15, 8, 12, 4, 9, 1, 2],
    [15, 5, 1, 3, 7, 14, 6, 9, 11, 8, 12, 2, 10, 0, 4, 13],
    [8, 6, 4, 1, 3, 11, 15, 0, 5, 12, 2, 13, 9, 7, 10, 14],
    [12, 15, 10, 4, 1, 5, 8, 7, 6, 2, 13, 14, 0, 3, 9, 11],
]
SL = [
    [11, 14, 15, 12, 5, 8, 7, 9, 11, 13, 14, 15, 6, 7, 9, 8],
    [7, 6, 8, 13, 11, 9, 7, 15, 7, 12, 15, 9, 11, 7, 13, 12],
    [11, 13, 6, 7, 14, 9, 13, 15, 14, 8, 13, 6, 5, 12, 7, 5],
    [11, 12, 14, 15, 14, 15, 9, 8, 9, 14, 5, 6, 8, 6, 5, 12],
    [9, 15, 5, 11, 6, 8, 13, 12, 5, 12, 13, 14, 11, 8, 5, 6],
]
SR = [
    [8, 9, 9, 11, 13, 15, 15, 5, 7, 7, 8, 11, 14, 14, 12, 6],
    [9, 13, 15, 7, 12, 8, 9, 11, 7, 7, 12, 7, 6, 15, 13, 11],
    [9, 7, 15, 11, 8, 6, 6, 14, 12, 13, 5, 14, 13, 13, 7, 5],
    [15, 5, 8, 11, 14, 14, 6, 14, 6, 9, 12, 9, 12, 5, 15, 8],
    [8, 5, 12, 9, 12, 5, 14, 6, 8, 13, 6, 5, 15, 13, 11, 11],
]
KL = [0, 0x5A827999, 0x6ED9EBA1, 0x8F1BBCDC, 0xA953FD4E]
KR = [0x50A28BE6, 0x5C4DD124, 0x6D703EF3, 0x7A6D76E9, 0]


def _rmd_f(j, x, y, z):
    return (
        x ^ y ^ z,
        (x & y) | (~x & z),
        (x | (~y & M32)) ^ z,
        (x & z) | (y & ~z),
        x ^ (y | (~z & M32)),
    )[j] & M32


def _rmd_blocks(m):
    m = pad64(m)
    for i in range(0, len(m), 64):
        yield struct.unpack_from("<16I", m, i)


def _rmd_round(j, x, s, r, sh, k, right):
    a, b, c, d, e = s
    for i in range(16):
        t = (a + _rmd_f(4 - j if right else j, b, c, d) + x[r[j][i]] + k[j]) & M32
        t = (rotl32(t, sh[j][i]) + e) & M32
        a, e, d, c, b = e, d, rotl32(c, 10), b, t
    return [a, b, c, d, e]


def ripemd160(m):
    h = [0x67452301, 0xEFCDAB89, 0x98BADCFE, 0x10325476, 0xC3D2E1F0]
    for x in _rmd_blocks(m):
        l, r = h[:], h[:]
        for j in range(5):
            l = _rmd_round(j, x, l, RL, SL, KL, False)
            r = _rmd_round(j, x, r, RR, SR, KR, True)
        h = [(h[(i + 1) % 5] + l[(i + 2) % 5] + r[(i + 3) % 5]) & M32 for i in range(5)]
    return struct.pack("<5I", *h)


def ripemd320(m):
    h = [0x67452301, 0xEFCDAB89, 0x98BADCFE, 0x10325476, 0xC3D2E1F0,
         0x76543210, 0xFEDCBA98, 0x89ABCDEF, 0x01234567, 0x3C2D1E0F]
    for x in _rmd_blocks(m):
        l, r = h[:5], h[5:]
        for j in range(5):
            l = _rmd_round(j, x, l, RL, SL, KL, False)
            r = _rmd_round(j, x, r, RR, SR, KR, True)
            i = (1, 3, 0, 2, 4)[j]
            l[i], r[i] = r[i], l[i]
        h = [(p + q) & M32 for p, q in zip(h, l + r)]
    return struct.pack("<10I", *h)


# ---- Whirlpool -------------------------------------------------------------------------------

_E = [0x1, 0xB, 0x9, 0xC, 0xD, 0x6, 0xF, 0x3, 0xE, 0x8, 0x7, 0x4, 0xA, 0x2, 0x5, 0x0]
_R = [0x7, 0xC, 0xB, 0xD, 0xE, 0x4, 0x9, 0xF, 0x6, 0x3, 0x8, 0xA, 0x2, 0x5, 0x1, 0x0]
_EI = [_E.index(i) for i in range(16)]


def _wbox(x):
    u, l = _E[x >> 4], _EI[x & 15]
    r = _R[u ^ l]
    return (_E[u ^ r] << 4) | _EI[l ^ r]


WS = [_wbox(x) for x in range(256)]


def gmul(a, b, poly):
    r = 0
    while b:
        if b & 1:
            r ^= a
        a <<= 1
        if a & 0x100:
            a ^= poly
        b >>= 1
    return r


WC = [1, 1, 4, 1, 8, 5, 2, 9]
# WT[t][x]: the row that byte x in place t contributes
WT = [[[gmul(WS[x], WC[(j - t) % 8], 0x11D) for j in range(8)] for x in range(256)] for t in range(8)]


def _wround(s):
    out = [0] * 64
    for i in range(8):
        row = [0] * 8
        for t in range(8):
            tab = WT[t][s[((i - t) % 8) * 8 + t]]
            row = [p ^ q for p, q in zip(row, tab)]
        out[i * 8:i * 8 + 8] = row
    return out


def whirlpool(m):
    n = len(m) * 8
    m = bytes(m) + b"\x80"
    m += b"\0" * ((32 - len(m)) % 64)
    m += n.to_bytes(32, "big")
    h = [0] * 64
    for i in range(0, len(m), 64):
        b = m[i:i + 64]
        k = h[:]
        s = [p ^ q for p, q in zip(b, k)]
        for r in range(10):
            k = _wround(k)
            for j in range(8):
                k[j] ^= WS[8 * r + j]
            s = [p ^ q for p, q in zip(_wround(s), k)]
        h = [p ^ q ^ r for p, q, r in zip(h, s, b)]
    return bytes(h)


# ---- Groestl-256 -----------------------------------------------------------------------------

def _aes_box():
    box = [0x63] * 256
    p = q = 1
    while True:
        p = p ^ ((p << 1) & 0xFF) ^ (0x1B if p & 0x80 else 0)
        q ^= q << 1
        q ^= q << 2
        q ^= q << 4
        q &= 0xFF
        if q & 0x80:
            q ^= 0x09
        rot = lambda x, n: ((x << n) | (x >> (8 - n))) & 0xFF
        box[p] = q ^ rot(q, 1) ^ rot(q, 2) ^ rot(q, 3) ^ rot(q, 4) ^ 0x63
        if p == 1:
            return box


AES = _aes_box()
GB = [2, 2, 3, 4, 5, 3, 5, 7]
# GT[t][x]: the column that byte x (before the S-box) in row t contributes
GT = [[[gmul(AES[x], GB[(t - i) % 8], 0x11B) for i in range(8)] for x in range(256)] for t in range(8)]


def _gperm(s, q):
    shift = (1, 3, 5, 7, 0, 2, 4, 6) if q else (0, 1, 2, 3, 4, 5, 6, 7)
    for r in range(10):
        s = list(s)
        if q:
            s = [x ^ 0xFF for x in s]
            for j in range(8):
                s[j * 8 + 7] ^= (j << 4) ^ r
        else:
            for j in range(8):
                s[j * 8] ^= (j << 4) ^ r
        out = []
        for j in range(8):
            col = [0] * 8
            for t in range(8):
                tab = GT[t][s[((j + shift[t]) % 8) * 8 + t]]
                col = [p ^ w for p, w in zip(col, tab)]
            out += col
        s = out
    return s


def groestl256(m):
    m = bytes(m) + b"\x80"
    m += b"\0" * ((56 - len(m)) % 64)
    m += struct.pack(">Q", len(m) // 64 + 1)
    h = [0] * 62 + [1, 0]
    for i in range(0, len(m), 64):
        b = m[i:i + 64]
        p = _gperm([x ^ y for x, y in zip(h, b)], False)
        q = _gperm(b, True)
        h = [x ^ y ^ z for x, y, z in zip(p, q, h)]
    p = _gperm(h, False)
    return bytes(x ^ y for x, y in zip(p, h))[32:]


# ---- by name ---------------------------------------------------------------------------------

def _hl(name):
    return lambda m: hashlib.new(name, m).digest()


FIXED = {
    "default": sip13, "seahash": seahash,
    "sha2": _hl("sha256"), "rust_sha2": _hl("sha256"), "rust_sha3": _hl("sha3_256"),
    "rust_keccak": lambda m: sponge(m, 136, 0x01, 32),
    "blake2b": _hl("blake2b"), "md5": _hl("md5"), "sha1": _hl("sha1"),
    "md2": md2, "md4": md4, "ripemd160": ripemd160, "ripemd320": ripemd320,
    "whirlpool": whirlpool, "groestl": groestl256,
    "sha512": _hl("sha512"), "sha384": _hl("sha384"), "sha224": _hl("sha224"),
    "sha3_512": _hl("sha3_512"), "sha3_224": _hl("sha3_224"), "blake2s": _hl("blake2s"),
}
OPTIONS = ["default", "blake2-rfc", "groestl", "sha2", "sha3", "keccak", "blake2b", "md2", "md4", "md5",
           "ripemd160", "ripemd320", "sha1", "rust_sha2", "rust_sha3", "rust_keccak", "whirlpool", "seahash",
           "fxhash"]


def fit(d, n):
    return d[:n] + b"\0" * (n - len(d))


def allowed(alg, n, chunks, alternatives=True):
    """The digests of `n` bytes that the option may give for the chunks."""
    m = b"".join(chunks)
    if alg == "fxhash":
        # Not byte oriented; as one chunk or as given
        r = [fit(fxhash(chunks), n)]
        if alternatives:
            r.append(fit(fxhash([m]), n))
        return r
    if alg == "blake2-rfc":
        return [hashlib.blake2b(m, digest_size=n).digest()]
    if alg in ("sha3", "keccak"):
        # A sponge gives as many bytes as it is asked for
        long = sponge(m, 136, 0x06 if alg == "sha3" else 0x01, max(n, 32))
        return [long[:n]] + ([fit(long[:32], n)] if n > 32 else [])
    return [fit(FIXED[alg](m), n)]


def selftest():
    """Published test vectors."""
    a, e = b"abc", b""
    want = {
        "md2": (a, "da853b0d3f88d99b30283a69e6ded6bb"),
        "md4": (a, "a448017aaf21d8525fc10ae87aa6729d"),
        "ripemd160": (a, "8eb208f7e05d987a9b044a8e98c6b087f15a0bfc"),
        "ripemd320": (a, "de4c01b3054f8930a79d09ae738e92301e5a17085beffdc1b8d116713e74f82fa942d64cdbc4682d"),
        "whirlpool": (a, "4e2448a4c6f486bb16b6562c73b4020bf3043e3a731bce721ae1b303d97e6d4c7181eebdb6c57e277d0e34957114cbd6c797fc9d95d8b582d225292076d4eef5"),
        "rust_keccak": (a, "4e03657aea45a94fc7d47ba826c8d667c0d1e6e33a64a036ec44f58fa12d6c45"),
        "groestl": (e, "1a52d11d550039be16107f9c58db9ebcc417f16f736adb2502567119f0083467"),
        "rust_sha3": (a, "3a985da74fe225b2045c172d6bd390bd855f086e3e9d525b46bfe24511431532"),
    }
    for k, (m, d) in want.items():
        if FIXED[k](m).hex() != d:
            raise AssertionError(f"oracle {k}: {FIXED[k](m).hex()} is not {d}")
    if sponge(a, 136, 6, 32).hex() != want["rust_sha3"][1]:
        raise AssertionError("oracle sponge")
    if seahash(b"to be or not to be") != struct.pack("<Q", 1988685042348123509):
        raise AssertionError("oracle seahash")


if __name__ == "__main__":
    selftest()
    print("ok")
