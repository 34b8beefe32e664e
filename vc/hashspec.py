"""FIPS 180-4 and RIPEMD-160 compression functions and HMAC padding, written from the standards over z3 words."""
import z3


def primes(n):
    out, c = [], 2
    while len(out) < n:
        if all(c % p for p in out):
            out.append(c)
        c += 1
    return out


def iroot(x, k):
    lo, hi = 0, 1
    while hi ** k <= x:
        hi *= 2
    while lo + 1 < hi:
        m = (lo + hi) // 2
        if m ** k <= x:
            lo = m
        else:
            hi = m
    return lo


def frac_root(p, k, bits):
    """first `bits` bits of the fractional part of the k-th root of p"""
    return iroot(p << (k * bits), k) & ((1 << bits) - 1)


K256 = [frac_root(p, 3, 32) for p in primes(64)]
H256 = [frac_root(p, 2, 32) for p in primes(8)]
K512 = [frac_root(p, 3, 64) for p in primes(80)]
H512 = [frac_root(p, 2, 64) for p in primes(8)]
H160 = [0x67452301, 0xEFCDAB89, 0x98BADCFE, 0x10325476, 0xC3D2E1F0]


def rotr(x, n):
    w = x.size()
    return z3.LShR(x, n) | (x << (w - n))


def rotl(x, n):
    w = x.size()
    return (x << n) | z3.LShR(x, w - n)


def sha2(state, block, K, rounds, S0, S1, s0, s1, w):
    W = list(block)
    sig = lambda x, p: rotr(x, p[0]) ^ rotr(x, p[1]) ^ z3.LShR(x, p[2])
    Sig = lambda x, p: rotr(x, p[0]) ^ rotr(x, p[1]) ^ rotr(x, p[2])
    for t in range(16, rounds):
        W.append(sig(W[t - 2], s1) + W[t - 7] + sig(W[t - 15], s0) + W[t - 16])
    a, b, c, d, e, f, g, h = state
    for t in range(rounds):
        t1 = h + Sig(e, S1) + ((e & f) ^ (~e & g)) + z3.BitVecVal(K[t], w) + W[t]
        t2 = Sig(a, S0) + ((a & b) ^ (a & c) ^ (b & c))
        h, g, f, e, d, c, b, a = g, f, e, d + t1, c, b, a, t1 + t2
    return [x + y for x, y in zip(state, (a, b, c, d, e, f, g, h))]


def sha256(state, block):
    return sha2(state, block, K256, 64, (2, 13, 22), (6, 11, 25), (7, 18, 3), (17, 19, 10), 32)


def sha512(state, block):
    return sha2(state, block, K512, 80, (28, 34, 39), (14, 18, 41), (1, 8, 7), (19, 61, 6), 64)


def sha1(state, block):
    W = list(block)
    for t in range(16, 80):
        W.append(rotl(W[t - 3] ^ W[t - 8] ^ W[t - 14] ^ W[t - 16], 1))
    a, b, c, d, e = state
    for t in range(80):
        if t < 20:
            f, k = (b & c) ^ (~b & d), 0x5a827999
        elif t < 40:
            f, k = b ^ c ^ d, 0x6ed9eba1
        elif t < 60:
            f, k = (b & c) ^ (b & d) ^ (c & d), 0x8f1bbcdc
        else:
            f, k = b ^ c ^ d, 0xca62c1d6
        x = rotl(a, 5) + f + e + z3.BitVecVal(k, 32) + W[t]
        e, d, c, b, a = d, c, rotl(b, 30), a, x
    return [x + y for x, y in zip(state, (a, b, c, d, e))]


RHO = [7, 4, 13, 1, 10, 6, 15, 3, 12, 0, 9, 5, 2, 14, 11, 8]
RL = [list(range(16))]
for _ in range(4):
    RL.append([RHO[i] for i in RL[-1]])
# rho applied to the index: r(j) of round n+1 is rho(r of round n)
RR = [[(9 * i + 5) % 16 for i in range(16)]]
for _ in range(4):
    RR.append([RHO[i] for i in RR[-1]])
SL = [[11, 14, 15, 12, 5, 8, 7, 9, 11, 13, 14, 15, 6, 7, 9, 8], [7, 6, 8, 13, 11, 9, 7, 15, 7, 12, 15, 9, 11, 7, 13, 12],
      [11, 13, 6, 7, 14, 9, 13, 15, 14, 8, 13, 6, 5, 12, 7, 5], [11, 12, 14, 15, 14, 15, 9, 8, 9, 14, 5, 6, 8, 6, 5, 12],
      [9, 15, 5, 11, 6, 8, 13, 12, 5, 12, 13, 14, 11, 8, 5, 6]]
SR = [[8, 9, 9, 11, 13, 15, 15, 5, 7, 7, 8, 11, 14, 14, 12, 6], [9, 13, 15, 7, 12, 8, 9, 11, 7, 7, 12, 7, 6, 15, 13, 11],
      [9, 7, 15, 11, 8, 6, 6, 14, 12, 13, 5, 14, 13, 13, 7, 5], [15, 5, 8, 11, 14, 14, 6, 14, 6, 9, 12, 9, 12, 5, 15, 8],
      [8, 5, 12, 9, 12, 5, 14, 6, 8, 13, 6, 5, 15, 13, 11, 11]]
KL = [0, 0x5a827999, 0x6ed9eba1, 0x8f1bbcdc, 0xa953fd4e]
KR = [0x50a28be6, 0x5c4dd124, 0x6d703ef3, 0x7a6d76e9, 0]


def rmd_f(n, x, y, z):
    return [x ^ y ^ z, (x & y) | (~x & z), (x | ~y) ^ z, (x & z) | (y & ~z), x ^ (y | ~z)][n]


def ripemd160(state, block):
    def line(F, R, S, K):
        a, b, c, d, e = state
        for j in range(80):
            n = j // 16
            t = rotl(a + rmd_f(F[n], b, c, d) + block[R[n][j % 16]] + z3.BitVecVal(K[n], 32), S[n][j % 16]) + e
            a, e, d, c, b = e, d, rotl(c, 10), b, t
        return a, b, c, d, e
    a, b, c, d, e = line([0, 1, 2, 3, 4], RL, SL, KL)
    A, B, Cc, D, E = line([4, 3, 2, 1, 0], RR, SR, KR)
    h = state
    return [h[1] + c + D, h[2] + d + E, h[3] + e + A, h[4] + a + B, h[0] + b + Cc]


def selftest():
    """the specification against hashlib on concrete messages"""
    import hashlib
    import random
    rnd = random.Random(5)

    def run(comp, H, msg, wbytes, block, lenb, order):
        l = len(msg)
        p = msg + b'\x80' + b'\0' * ((block - lenb - 1 - l) % block) + (8 * l).to_bytes(lenb, order)
        st = [z3.BitVecVal(h, 8 * wbytes) for h in H]
        for o in range(0, len(p), block):
            ws = [z3.BitVecVal(int.from_bytes(p[o + i:o + i + wbytes], order), 8 * wbytes) for i in range(0, block, wbytes)]
            st = [z3.simplify(x) for x in comp(st, ws)]
        return b''.join(s.as_long().to_bytes(wbytes, order) for s in st)
    for n in (0, 3, 55, 56, 64, 130):
        m = bytes(rnd.randrange(256) for _ in range(n))
        if run(sha256, H256, m, 4, 64, 8, 'big') != hashlib.sha256(m).digest():
            return 'sha256'
        if run(sha512, H512, m, 8, 128, 16, 'big') != hashlib.sha512(m).digest():
            return 'sha512'
        if run(sha1, H160, m, 4, 64, 8, 'big') != hashlib.sha1(m).digest():
            return 'sha1'
    vec = {b'': '9c1185a5c5e9fc54612808977ee8f548b2258d31', b'abc': '8eb208f7e05d987a9b044a8e98c6b087f15a0bfc',
           b'1234567890' * 8: '9b752e45573d4b39f4dbd3323cab82bf63326bfb'}
    for m, d in vec.items():
        if run(ripemd160, H160, m, 4, 64, 8, 'little').hex() != d:
            return 'ripemd160'
    return None


if __name__ == '__main__':
    print(selftest())
