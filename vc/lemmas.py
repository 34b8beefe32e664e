"""Lemmas over the contracts' specification functions: what a user relies on (decode inverts encode, ...) follows from the
postconditions proved on the code.  Each lemma is a list of named obligations."""
import time
import z3
from .engine import Ob
from . import c_hex, c_base, c_varint, c_bech32, c_b58, chain, secp
from .arith import RAW

LEMMAS = {}


def lemma(*props):
    def deco(f):
        for p in props:
            LEMMAS.setdefault(p, []).append(f)
        return f
    return deco


def prove(out, name, goal, fn, ms=60000):
    t = time.time()
    if isinstance(goal, bool):
        out.append(Ob('lemma ' + fn, name, goal, 'computation', 0.0))
        return
    s = z3.Solver()
    s.set('timeout', ms)
    s.add(z3.Not(goal))
    r = s.check()
    out.append(Ob('lemma ' + fn, name, r == z3.unsat, 'z3', time.time() - t, None, '' if r == z3.unsat else '%s %s' % (r, s.model() if r == z3.sat else '')))


@lemma('C01')
def hex_roundtrip():
    out = []
    b, u = z3.BitVec('b', 8), z3.Bool('upper')
    hi, lo = c_hex.hexdigit(z3.LShR(b, 4), u), c_hex.hexdigit(b & 15, u)
    prove(out, 'both digits of a byte are hex digits', z3.And(c_hex.is_hex(hi), c_hex.is_hex(lo)), 'hex_roundtrip')
    prove(out, 'decoding the digits of a byte gives the byte', c_hex.hexval(hi) * 16 + c_hex.hexval(lo) == b, 'hex_roundtrip')
    prove(out, 'upper and lower case digits have the same value', c_hex.hexval(c_hex.hexdigit(b & 15, z3.BoolVal(True))) ==
          c_hex.hexval(c_hex.hexdigit(b & 15, z3.BoolVal(False))), 'hex_roundtrip')
    return out


def base_roundtrip(alpha):
    A = c_base.ALPHA[alpha]
    fn = 'base_roundtrip[%s]' % alpha
    out = []
    x = z3.BitVec('x', 8)
    small = z3.ULT(x, 1 << A['B'])
    prove(out, 'every value has an alphabet character that decodes to it',
          z3.Implies(small, z3.And(A['ok'](A['enc'](x)), A['dec'](A['enc'](x)) == x)), fn)
    prove(out, 'every alphabet character decodes to a value in range', z3.Implies(A['ok'](x), z3.ULT(A['dec'](x), 1 << A['B'])), fn)
    if A['pad']:
        prove(out, 'the padding character is not in the alphabet', z3.Not(A['ok'](z3.BitVecVal(0x3d, 8))), fn)
    bs = [z3.BitVec('b%d' % i, 8) for i in range(A['BB'])]
    for r in range(1, A['BB'] + 1):
        k = A['CB'] if r == A['BB'] else c_base.nchars(A, r)
        blk = bs[:r] + [z3.BitVecVal(0, 8)] * (A['BB'] - r)
        gs = [A['enc'](c_base.group(A, blk, d)) for d in range(k)]
        vals = [A['dec'](g) for g in gs] + [z3.BitVecVal(0, 8)] * (A['CB'] - k)
        prove(out, '%d bytes: every character is in the alphabet' % r, z3.And([A['ok'](g) for g in gs]), fn)
        prove(out, '%d bytes: decoding the %d characters gives the bytes back' % (r, k),
              z3.And([c_base.ungroup(A, vals, d) == bs[d] for d in range(r)]), fn)
        if r < A['BB']:
            prove(out, '%d trailing bytes and %d trailing characters correspond' % (r, k), c_base.nbytes(A, k) == r, fn)
    n = z3.Int('n')
    RAW[0] = True
    # lengths: the characters that carry bits of n bytes decode to exactly n bytes
    chars = A['CB'] * (n / A['BB'])
    e = z3.IntVal(0)
    for i in range(1, A['BB']):
        e = z3.If(n % A['BB'] == i, c_base.nchars(A, i), e)
    L = chars + e
    d = z3.IntVal(0)
    for i in range(1, A['CB']):
        d = z3.If(L % A['CB'] == i, c_base.nbytes(A, i), d)
    prove(out, 'the decoder of an n-byte text returns n bytes', z3.Implies(n >= 0, A['BB'] * (L / A['CB']) + d == n), fn)
    RAW[0] = False
    return out


@lemma('C02')
def base32_roundtrip():
    return base_roundtrip('b32')


@lemma('C03')
def base32_raw_roundtrip():
    return base_roundtrip('raw')


@lemma('C04')
def base64_roundtrip():
    return base_roundtrip('std')


@lemma('C04')
def base64_url_roundtrip():
    return base_roundtrip('url')


@lemma('C11', 'C12')
def varint_roundtrip():
    out = []
    v = z3.BitVec('v', 64)
    fn = 'varint_roundtrip'
    for L in range(1, 11):
        ds = c_varint.digits(v, L)
        f = lambda i: ds[i.as_long()]
        prove(out, 'an encoding of %d bytes terminates exactly there' % L, c_varint.terminates(f, L), fn)
        prove(out, 'an encoding of %d bytes represents its value' % L,
              z3.Implies(c_varint.in_interval(v, L), c_varint.decoded_value(f, L) == z3.ZeroExt(32, v)), fn)
    prove(out, 'every 64-bit value lies in exactly one interval',
          z3.And(z3.Or([c_varint.in_interval(v, L) for L in range(1, 11)]),
                 z3.And([z3.Not(z3.And(c_varint.in_interval(v, a), c_varint.in_interval(v, b))) for a in range(1, 11) for b in range(a)])), fn)
    # uniqueness: two byte strings of one length with the same represented value are equal
    for L in range(1, 11):
        xs, ys = [z3.BitVec('x%d' % i, 8) for i in range(L)], [z3.BitVec('y%d' % i, 8) for i in range(L)]
        fx, fy = (lambda i: xs[i.as_long()]), (lambda i: ys[i.as_long()])
        prove(out, 'two encodings of %d bytes of one value are equal' % L,
              z3.Implies(z3.And(c_varint.terminates(fx, L), c_varint.terminates(fy, L), c_varint.decoded_value(fx, L) == c_varint.decoded_value(fy, L)),
                         z3.And([a == b for a, b in zip(xs, ys)])), fn)
        prove(out, 'strings of %d bytes represent values of their own interval only' % L,
              z3.Implies(c_varint.terminates(fx, L), z3.And(z3.UGE(c_varint.decoded_value(fx, L), z3.BitVecVal(c_varint.BASE(L), 96)),
                                                            z3.ULT(c_varint.decoded_value(fx, L), z3.BitVecVal(c_varint.BASE(L + 1), 96)))), fn)
    return out


@lemma('C12')
def zigzag_bijection():
    out = []
    v = z3.BitVec('v', 64)
    fn = 'zigzag_bijection'
    prove(out, 'unzig inverts zig', c_varint.unzig(c_varint.zig(v)) == v, fn)
    prove(out, 'zig inverts unzig', c_varint.zig(c_varint.unzig(v)) == v, fn)
    return out


@lemma('C07')
def bech32_roundtrip():
    out = []
    fn = 'bech32_roundtrip'
    B = c_bech32
    v = z3.BitVec('v', 5)
    ch = z3.BitVecVal(B.CHARSET[0], 8)
    for i in range(1, 32):
        ch = z3.If(v == i, z3.BitVecVal(B.CHARSET[i], 8), ch)
    x = z3.BitVec('x', 8)
    dec = z3.BitVecVal(255, 8)
    for i in range(256):
        if B.DEC[i] != 255:
            dec = z3.If(x == i, z3.BitVecVal(B.DEC[i], 8), dec)
    d = z3.substitute(dec, (x, ch))
    prove(out, 'the character of a value decodes to it', d == z3.ZeroExt(3, v), fn)
    prove(out, 'the characters of values are printable, lower case and not the separator',
          z3.And(B.printable(ch), z3.Not(B.is_up(ch)), ch != ord('1')), fn)
    prove(out, 'decoding ignores the case of a character', z3.substitute(dec, (x, B.lower8(x))) == dec, fn)
    # appending the digits of polymod(values, 0^6) xor 1 makes the checksum valid
    c = z3.BitVec('c', 30)
    m = c
    for i in range(6):
        m = B.step(m, z3.BitVecVal(0, 8))
    m = m ^ 1
    w = c
    for i in range(6):
        w = B.step(w, z3.ZeroExt(3, z3.Extract(5 * (5 - i) + 4, 5 * (5 - i), m)))
    prove(out, 'the created checksum verifies', w == 1, fn)
    return out


@lemma('C08')
def bech32_distance():
    """polymod is affine over GF(2) in the values; no non-zero difference of at most four of the last 89 values is annihilated"""
    import numpy as np
    out = []
    fn = 'bech32_distance'
    B = c_bech32
    c, d = z3.BitVecs('c d', 30)
    u, v = z3.BitVecs('u v', 8)
    prove(out, 'one step is linear over GF(2)', B.step(c ^ d, u ^ v) == B.step(c, u) ^ B.step(d, v), fn)

    def step(x, e):
        t = x >> 25
        y = ((x & 0x1ffffff) << 5) ^ e
        for i, g in enumerate(B.GEN):
            if t >> i & 1:
                y ^= g
        return y
    # syndrome of value e at distance p from the end (values after the separator: at most 90 - 1 - 1 = 88)
    N = 89
    S = np.zeros((N, 32), dtype=np.uint32)
    for e in range(32):
        x = e
        for p in range(N):
            S[p, e] = x
            x = step(x, 0)
    ones = S[:, 1:].reshape(-1)
    prove(out, 'one substitution changes the checksum state', bool((ones != 0).all() and len(np.unique(ones)) == len(ones)), fn)
    parts = []
    for p in range(N):
        for q in range(p):
            parts.append((S[p, 1:, None] ^ S[q, None, 1:]).reshape(-1))
    two = np.concatenate(parts)
    two.sort()
    prove(out, 'two substitutions change the checksum state', bool((two != 0).all()), fn)
    prove(out, 'three substitutions change the checksum state: no pair equals a single one', not bool(np.isin(ones, two).any()), fn)
    prove(out, 'four substitutions change the checksum state: no two pairs agree', bool((two[1:] != two[:-1]).all()), fn)
    # pairs sharing a position reduce to three or fewer positions, covered by the cases above
    return out


def run(prop):
    out = []
    for f in LEMMAS.get(prop, []):
        try:
            out += f()
        except Exception as e:
            out.append(Ob('lemma ' + f.__name__, 'the lemma was processed: %s: %s' % (type(e).__name__, e), False, 'none', 0.0))
    return out


@lemma('C22')
def commutes():
    """both sides of the diagram as the contracts of exkey_derive, exkey_get_pub and expubkey_derive describe them"""
    out = []
    fn = 'commutes'
    k, cc, d = z3.BitVec('k', 256), z3.BitVec('chain', 256), z3.BitVec('depth', 8)
    idx = z3.BitVec('child', 32)
    HM = z3.Function('bip32_hash', z3.BitVecSort(256), z3.BitVecSort(32), z3.BitVecSort(264), z3.BitVecSort(512))

    class S:
        fs = []

        def add(self, f):
            self.fs.append(f)
    s = S()
    P = secp.PUB(k)
    e = secp.SER33(P)
    I = HM(cc, idx, e)
    t, c2 = z3.Extract(511, 256, I), z3.Extract(255, 0, I)
    secp.pub_facts(s, P)
    s.fs += [secp.SKOK(k), z3.Implies(secp.SKOK(k), secp.PKOK(P))]
    secp.hom(s, k, t)
    hyp = z3.And(s.fs)
    # private then public: depth+1, c2, SER33(PUB(TWK(k, t))); public then public: SER33(TWP(PARSE33(e), t)) with I of the same e
    okA = z3.And(d != 255, secp.TWKOK(k, t))
    Q = secp.PARSE33(e)
    okB = z3.And(d != 255, secp.POK33(e), secp.TWPOK(Q, t))
    prove(out, 'both derivations succeed for the same keys and indices', z3.Implies(hyp, okA == okB), fn)
    prove(out, 'the child public keys agree', z3.Implies(z3.And(hyp, okA), secp.SER33(secp.PUB(secp.TWK(k, t))) == secp.SER33(secp.TWP(Q, t))), fn)
    prove(out, 'the encoding of a public key is a legal input of public derivation',
          z3.Implies(hyp, z3.Or(z3.Extract(263, 256, e) == 2, z3.Extract(263, 256, e) == 3)), fn)
    return out

@lemma('C05')
def base58_numbers():
    out = []
    fn = 'base58_numbers'
    A, D, P, c0, ck, M, B, d, c1 = z3.Ints('A D P c0 ck M B d c1')
    # induction step of 'carry chain': with n = ck + M d - B c1, from A + P ck = c0 + M D follows (A + P n) + (P B) c1 = c0 + M (D + P d)
    n = ck + M * d - B * c1
    e = (A + P * n) + (P * B) * c1 - (c0 + M * (D + P * d)) - (A + P * ck - (c0 + M * D))
    prove(out, 'carry chain: induction step (ring identity)', z3.is_int_value(z3.simplify(e, som=True)) and z3.simplify(e, som=True).as_long() == 0, fn)
    for b in (58, 256):
        m = 58 + 256 - b
        prove(out, 'base %d: digits below the base and digits of the lower number below base^k stay below base^(k+1)' % b,
              z3.Implies(z3.And(0 <= A, A < P, P >= 1, 0 <= d, d < b), z3.And([z3.Implies(d == v, A + v * P < b * P) for v in range(b)])), fn)
        prove(out, 'base %d: the lowest digit and the rest are determined by the number' % b,
              z3.Implies(z3.And(b * A + d == b * D + n0(), 0 <= d, d < b, 0 <= n0(), n0() < b), z3.And(A == D, d == n0())), fn)
        for q in (100, 1000, 10000):
            p = chain.RATIO[m, b, q]
            prove(out, 'buffer size: %d^%d <= %d^%d' % (m, q, b, p), m ** q <= b ** p, fn)
    v, c = z3.Ints('v c')
    al, va, ch = z3b(c_b58.is_alpha), c_b58.value, c_b58.char
    prove(out, 'every digit has an alphabet character that decodes to it',
          z3.Implies(z3.And(0 <= v, v < 58), z3.And(al(ch(v)), va(ch(v)) == v)), fn)
    prove(out, 'every alphabet character is the character of its value',
          z3.Implies(al(c), z3.And(0 <= va(c), va(c) < 58, ch(va(c)) == c)), fn)
    prove(out, 'white space is not in the alphabet', z3.Not(z3.And(al(c), z3b(c_b58.is_space)(c))), fn)
    prove(out, 'the character 1 is the digit zero, and no other', z3.Implies(al(c), (va(c) == 0) == (c == ord('1'))), fn)
    prove(out, 'the alphabet has 58 characters in the customary order',
          [ch(i) for i in range(58)] == [ord(x) for x in '123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz'], fn)
    return out


@lemma('C17', 'C23', 'C10')
def base58_length():
    """z zero bytes and a number below 256^(m-z) give z + (number of base 58 digits) characters"""
    from .c_b58c import digits58
    out = []
    fn = 'base58_length'
    d = [digits58(m) for m in range(129)]
    prove(out, 'digits58(m) is the least k with 256^m <= 58^k', all(256 ** m <= 58 ** d[m] and (d[m] == 0 or 256 ** m > 58 ** (d[m] - 1)) for m in range(129)), fn)
    prove(out, 'leading zero bytes do not lengthen the text', all(z + d[m - z] <= d[m] for m in range(129) for z in range(m + 1)), fn)
    prove(out, 'the text of at least one byte is not empty', all(z + d[m - z] >= 1 for m in range(1, 129) for z in range(m + 1)), fn)
    prove(out, 'never more than m * 138 / 100 + 2', all(d[m] <= m * 138 // 100 + 2 for m in range(129)), fn)
    return out


@lemma('C23')
def serialisation_inverse():
    """the fields the decoding contracts read off the layout of the encoding contracts are the fields encoded"""
    from . import c_key
    from .arith import concat
    out = []
    for pub in (False, True):
        class X:
            depth, fp, child, cc = z3.BitVec('depth', 8), z3.BitVec('fp', 32), z3.BitVec('child', 32), z3.BitVec('cc', 256)
            key = z3.BitVec('key', 264 if pub else 256)
        e = concat(c_key.layout(X, pub))
        got = {}

        class Rec:
            def field(self, ex, st, rid, off, n, want, what):
                got[off] = want
        old = c_key.same_bytes
        c_key.same_bytes = lambda ex, st, rid, off, t, what: got.__setitem__(off, t)
        try:
            c_key.check_struct(Rec(), None, None, None, e, pub)
        finally:
            c_key.same_bytes = old
        for off, want in ((c_key.DEPTH, X.depth), (c_key.FP, X.fp), (c_key.CHILD, X.child), (c_key.CHAIN, X.cc), (c_key.KEY, X.key)):
            prove(out, '%s key: field at offset %d is restored' % ('public' if pub else 'private', off), got[off] == want, 'serialisation_inverse')
    return out


@lemma('C09')
def address_inverse():
    """what the witness encoders produce satisfies the decoder's conditions and yields the payload"""
    from .c_base import enc_len, dec_len, enc_char, ALPHA
    from .c_addr import HRP
    out = []
    fn = 'address_inverse'
    A = ALPHA['raw']
    sizes = range(2, 41)
    v = lambda x: x if isinstance(x, int) else z3.simplify(x).as_long()
    prove(out, 'the text of every legal program has at most 90 characters', all(HRP + 1 + 1 + v(enc_len(A, n)) + 6 <= 90 for n in sizes), fn)
    prove(out, 'at most four padding bits', all(v(enc_len(A, n)) * 5 % 8 <= 4 for n in sizes), fn)
    prove(out, 'decoding returns as many bytes', all(v(dec_len(A, v(enc_len(A, n)))) == n for n in sizes), fn)
    f = z3.Function('payload', z3.IntSort(), z3.BitVecSort(8))
    for n in sizes:
        m = v(enc_len(A, n))
        bits = m * 5 % 8
        if not bits:
            continue
        j, d = divmod(m - 1, A['CB'])
        _, ch = enc_char(A, f, n, j, d)
        prove(out, 'zero padding bits (%d bytes)' % n, z3.Extract(bits - 1, 0, as_b(ch)) == 0, fn)
    return out


@lemma('C29')
def parameters_assumed():
    """the published sets satisfy what the contracts of the text forms assume of a parameter set"""
    from .c_chain import TABLES, FIELDS
    from .c_addr import HRP
    out = []
    fn = 'parameters_assumed'
    for tab, vals in TABLES.items():
        v = dict(zip(FIELDS, vals))
        hrp = v['bech32_hrp']
        prove(out, '%s: every prefix has 1 to 8 bytes' % tab, all(1 <= len(v[f]) <= 8 for f in FIELDS if f != 'bech32_hrp'), fn)
        prove(out, '%s: the human-readable part has 1 to %d lower-case characters' % (tab, HRP),
              1 <= len(hrp) <= HRP and all(97 <= c <= 122 for c in hrp), fn)
        ps = [v['prefix_pubkey_address'], v['prefix_script_address'], v['prefix_secret_key']]
        prove(out, '%s: no Base58Check prefix starts with another' % tab, all(not a.startswith(b) for i, a in enumerate(ps) for j, b in enumerate(ps) if i != j), fn)
        prove(out, '%s: the extended key prefixes differ' % tab, v['prefix_ext_public_key'] != v['prefix_ext_secret_key'], fn)
    return out


def as_b(x):
    return x.e if hasattr(x, 'e') else x


def n0():
    return z3.Int('n0')


def z3b(f):
    return lambda *a: f(*a) if z3.is_expr(f(*a)) else z3.BoolVal(f(*a))
