"""Reference definitions, written from RFC 1321 and FIPS 180-4, over the same value domain
the analysis uses: applied to Terms they give the normal form a correct implementation has."""
from . import terms as tm

def _icbrt(n):
    lo, hi = 0, 1 << ((n.bit_length() + 2) // 3 + 1)
    while lo < hi:
        m = (lo + hi + 1) // 2
        if m ** 3 <= n:
            lo = m
        else:
            hi = m - 1
    return lo
def _isqrt(n):
    import math
    return math.isqrt(n)
def _primes(n):
    out, k = [], 2
    while len(out) < n:
        if all(k % p for p in out if p * p <= k):
            out.append(k)
        k += 1
    return out
PR = _primes(80)
def frac_sqrt(p, bits):
    return _isqrt(p << (2 * bits)) & ((1 << bits) - 1)
def frac_cbrt(p, bits):
    return _icbrt(p << (3 * bits)) & ((1 << bits) - 1)

def _md5k():
    # floor(2^32 |sin(i)|), by integer series
    out = []
    F = 1 << 160
    # pi to 160 bits by Machin
    def arctan_inv(x):
        t = F // x; s = t; n = 3; sign = -1
        while t:
            t //= x * x
            s += sign * (t // n); sign = -sign; n += 2
        return s
    pi = 4 * (4 * arctan_inv(5) - arctan_inv(239))
    for i in range(1, 65):
        x = i * F % (2 * pi)
        t, s, n = x, x, 1
        while t:
            t = -t * x // F * x // F // ((n + 1) * (n + 2)) if False else -((t * x // F) * x // F) // ((n + 1) * (n + 2))
            n += 2
            s += t
            if abs(t) < 2:
                break
        out.append((abs(s) << 32) // F)
    return out
MD5K = _md5k()
MD5S = [7, 12, 17, 22] * 4 + [5, 9, 14, 20] * 4 + [4, 11, 16, 23] * 4 + [6, 10, 15, 21] * 4
K256 = [frac_cbrt(p, 32) for p in PR[:64]]
K512 = [frac_cbrt(p, 64) for p in PR[:80]]
IV = {
    'md5': [0x67452301, 0xefcdab89, 0x98badcfe, 0x10325476],
    'sha1': [0x67452301, 0xefcdab89, 0x98badcfe, 0x10325476, 0xc3d2e1f0],
    'sha224': [frac_sqrt(p, 64) & 0xffffffff for p in PR[8:16]],
    'sha256': [frac_sqrt(p, 32) for p in PR[:8]],
    'sha512': [frac_sqrt(p, 64) for p in PR[:8]],
}
assert MD5K[0] == 0xd76aa478 and MD5K[63] == 0xeb86d391 and K256[0] == 0x428a2f98 and K512[79] == 0x6c44198c4a475817
assert IV['sha224'][0] == 0xc1059ed8 and IV['sha256'][7] == 0x5be0cd19 and IV['sha512'][0] == 0x6a09e667f3bcc908

class Alg:
    def __init__(self, name, block, digest, word, nwords, lenbytes, big):
        self.name, self.block, self.digest, self.word, self.nwords, self.lenbytes, self.big = name, block, digest, word, nwords, lenbytes, big
ALGS = {a.name: a for a in [
    Alg('md5', 64, 16, 4, 4, 8, False), Alg('sha1', 64, 20, 4, 5, 8, True), Alg('sha224', 64, 28, 4, 8, 8, True),
    Alg('sha256', 64, 32, 4, 8, 8, True), Alg('sha512', 128, 64, 8, 8, 16, True)]}

add, xor, and_, or_, not_, rotl, rotr, shr = tm.add, tm.xor, tm.and_, tm.or_, tm.not_, tm.rotl, tm.rotr, tm.lshr
def C(v, w):
    return tm.const(v, w)

def compress(alg, H, block):
    """H: list of word Terms; block: list of byte Terms"""
    return {'md5': md5, 'sha1': sha1, 'sha224': sha2_32, 'sha256': sha2_32, 'sha512': sha2_64}[alg](H, block)

def words(block, n, big):
    out = []
    for i in range(0, len(block), n):
        b = block[i:i + n]
        out.append(tm.concat(b[::-1] if big else b))
    return out

def md5(H, block):
    X = words(block, 4, False)
    a, b, c, d = H
    for i in range(64):
        if i < 16:
            f, g = or_(and_(b, c), and_(not_(b), d)), i
        elif i < 32:
            f, g = or_(and_(b, d), and_(c, not_(d))), (5 * i + 1) % 16
        elif i < 48:
            f, g = xor(xor(b, c), d), (3 * i + 5) % 16
        else:
            f, g = xor(c, or_(b, not_(d))), 7 * i % 16
        t = add(add(add(a, f), X[g]), C(MD5K[i], 32))
        a, d, c, b = d, c, b, add(b, rotl(t, MD5S[i]))
    return [add(x, y) for x, y in zip(H, (a, b, c, d))]

def sha1(H, block):
    W = words(block, 4, True)
    for t in range(16, 80):
        W.append(rotl(xor(xor(W[t - 3], W[t - 8]), xor(W[t - 14], W[t - 16])), 1))
    a, b, c, d, e = H
    for t in range(80):
        if t < 20:
            f, k = or_(and_(b, c), and_(not_(b), d)), 0x5a827999
        elif t < 40:
            f, k = xor(xor(b, c), d), 0x6ed9eba1
        elif t < 60:
            f, k = or_(or_(and_(b, c), and_(b, d)), and_(c, d)), 0x8f1bbcdc
        else:
            f, k = xor(xor(b, c), d), 0xca62c1d6
        T = add(add(add(add(rotl(a, 5), f), e), C(k, 32)), W[t])
        e, d, c, b, a = d, c, rotl(b, 30), a, T
    return [add(x, y) for x, y in zip(H, (a, b, c, d, e))]

def sha2(H, block, w, n, K, S0, S1, s0, s1):
    W = words(block, w // 8, True)
    for t in range(16, n):
        W.append(add(add(s1(W[t - 2]), W[t - 7]), add(s0(W[t - 15]), W[t - 16])))
    a, b, c, d, e, f, g, h = H
    for t in range(n):
        T1 = add(add(add(h, S1(e)), add(xor(and_(e, f), and_(not_(e), g)), C(K[t], w))), W[t])
        T2 = add(S0(a), xor(xor(and_(a, b), and_(a, c)), and_(b, c)))
        h, g, f, e, d, c, b, a = g, f, e, add(d, T1), c, b, a, add(T1, T2)
    return [add(x, y) for x, y in zip(H, (a, b, c, d, e, f, g, h))]

def sha2_32(H, block):
    return sha2(H, block, 32, 64, K256,
                lambda x: xor(xor(rotr(x, 2), rotr(x, 13)), rotr(x, 22)), lambda x: xor(xor(rotr(x, 6), rotr(x, 11)), rotr(x, 25)),
                lambda x: xor(xor(rotr(x, 7), rotr(x, 18)), shr(x, 3)), lambda x: xor(xor(rotr(x, 17), rotr(x, 19)), shr(x, 10)))

def sha2_64(H, block):
    return sha2(H, block, 64, 80, K512,
                lambda x: xor(xor(rotr(x, 28), rotr(x, 34)), rotr(x, 39)), lambda x: xor(xor(rotr(x, 14), rotr(x, 18)), rotr(x, 41)),
                lambda x: xor(xor(rotr(x, 1), rotr(x, 8)), shr(x, 7)), lambda x: xor(xor(rotr(x, 19), rotr(x, 61)), shr(x, 6)))
