"""Concrete runs of the real functions against the reference implementations: op(L, case) returns None, or what went wrong.
A case is JSON: {"op": name, parameters (bytes as hex)}.  The parameter names follow the contracts' input names, so that a
solver's counterexample to an obligation is a case of the same op."""
import ctypes
import os
import random
import struct
from . import ref

NDEBUG = bool(os.environ.get('VP_NDEBUG'))      # the library under test was compiled without assertions

OPS = {}      # name -> function
GENS = {}     # property -> [(weight, generator)]
PARAMS = [ref.MAIN, ref.TEST, ref.REG]


def op(f):
    OPS[f.__name__] = f
    return f


def h(x):
    return bytes.fromhex(x)


class Bad(Exception):
    small = False       # the announced buffer size is too small


def small(e):
    e.small = True
    return e


def want(what, got, exp):
    if got != exp:
        f = lambda v: v.hex() if isinstance(v, (bytes, bytearray)) else repr(v)
        e = Bad('%s: got %s, expected %s' % (what, f(got)[:400], f(exp)[:400]))
        e.small = 'announced' in what and got < exp
        raise e


def out_ret(L, name, exp, *args, cap=None, outpos=-1):
    """call name with an output buffer of exactly the needed capacity, which must be filled with exp"""


# ---------------------------------------------------------------- hex, base32, base64
@op
def to_hex(L, c):
    b = h(c['buf'])
    for up in (0, c.get('upper', 1) or 1):
        exp = ref.to_hex(b, up)
        n = L.call('vp_to_hex_length', len(b))
        want('length', n, len(exp))
        s = L.out(n)
        L.call('fingera_to_hex', L.inp(b), len(b), s, up & 0xffffffff, res='void')
        want('to_hex', L.get(s, n), exp)


@op
def from_hex(L, c):
    s = h(c['str'])
    exp = ref.from_hex(s)
    o = L.out(len(s) // 2)
    r = L.call('fingera_from_hex', L.inp(s), len(s), o)
    want('count', r, len(exp))
    want('bytes', L.get(o, r), exp)
    if L.call('vp_from_hex_length', len(s)) < len(s) // 2:
        raise small(Bad('announced size is too small'))


def encoder(name, lenf, ref_f, returns=False):
    def f(L, c):
        b = h(c['buf'])
        exp = ref_f(b)
        n = len(exp)
        if lenf:
            want('announced length', L.call(lenf, len(b)), n)
        o = L.out(n)
        r = L.call(name, L.inp(b), len(b), o, res='size_t' if returns else 'void')
        if returns:
            want('returned length', r, n)
        want('text', L.get(o, n), exp)
    return f


def decoder(name, lenf, ref_f, cut, w, cb, bb, strlen=True):
    def f(L, c):
        s = h(c['str'])
        exp = ref_f(s)
        n = ref.cap(len(cut(s)), w, cb, bb)
        p = L.inp(s)
        if lenf:
            want('announced length', L.call(lenf, p, len(s)) if strlen else L.call(lenf, len(s)), n)
        o = L.out(n)
        r = L.call(name, p, len(s), o)
        want('count', r, len(exp))
        want('bytes', L.get(o, r), exp)
    return f


same = lambda s: s
OPS['to_base32'] = encoder('fingera_to_base32', 'vp_to_base32_length', ref.to_base32)
OPS['to_base32_raw'] = encoder('fingera_to_base32_raw', None, ref.to_base32_raw, True)
OPS['to_base64'] = encoder('fingera_to_base64', 'vp_to_base64_length', ref.to_base64)
OPS['to_base64_urlsafe'] = encoder('fingera_to_base64_urlsafe', 'vp_to_base64_urlsafe_length', ref.to_base64u)
OPS['from_base32'] = decoder('fingera_from_base32', 'fingera_from_base32_length', ref.from_base32, ref.cut32, 5, 8, 5)
OPS['from_base32_raw'] = decoder('fingera_from_base32_raw', 'fingera_from_base32_raw_length', ref.from_base32_raw, same, 5, 8, 5, False)
OPS['from_base64'] = decoder('fingera_from_base64', 'vp_from_base64_length', ref.from_base64, ref.cut64, 6, 4, 3)
OPS['from_base64_urlsafe'] = decoder('fingera_from_base64_urlsafe', 'vp_from_base64_urlsafe_length', ref.from_base64u, same, 6, 4, 3, False)


def rbytes(g, n):
    k = g.randrange(6)
    if k == 0:
        return bytes(n)
    if k == 1:
        return b'\xff' * n
    if k == 2:
        return bytes(g.choice((0, 1, 0x7f, 0x80, 0xff)) for _ in range(n))
    if k == 3 and n:
        z = g.randrange(n + 1)
        return bytes(z) + g.randbytes(n - z)
    return g.randbytes(n)


def rlen(g, big=300):
    k = g.randrange(10)
    return g.randrange(12) if k < 5 else g.randrange(70) if k < 8 else g.randrange(big)


def mutate(g, s, alpha=None):
    s = bytearray(s)
    for _ in range(g.choice((0, 1, 1, 1, 2, 3))):
        k = g.randrange(5)
        v = g.choice(alpha) if alpha and g.random() < .4 else g.choice((0, 9, 10, 0x20, 0x2b, 0x2d, 0x2f, 0x30, 0x31, 0x38, 0x3d, 0x40, 0x41, 0x5a, 0x5b, 0x5f, 0x60, 0x61, 0x7a, 0x7b, 0x7f, 0x80, 0xff, g.randrange(256)))
        if k == 0 and s:
            s[g.randrange(len(s))] = v
        elif k == 1:
            s.insert(g.randrange(len(s) + 1), v)
        elif k == 2 and s:
            del s[g.randrange(len(s))]
        elif k == 3 and s:
            del s[g.randrange(len(s)):]
        elif s:
            s[-1] = v
    return bytes(s)


def flipcase(g, s):
    return bytes(c ^ 32 if chr(c).isalpha() and g.random() < .5 else c for c in s)


def hexgen(g):
    b = rbytes(g, rlen(g))
    if g.random() < .4:
        return dict(op='to_hex', buf=b.hex(), upper=g.choice((1, 2, -1, 256, 1 << 31)))
    s = mutate(g, flipcase(g, ref.to_hex(b, 0)), b'0123456789abcdefABCDEF')
    return dict(op='from_hex', str=s.hex())


def codecgen(enc, dec, alpha, encf, case=False):
    def gen(g):
        b = rbytes(g, rlen(g))
        if g.random() < .4:
            return dict(op=enc, buf=b.hex())
        s = encf(b)
        if case and g.random() < .5:
            s = flipcase(g, s)
        if g.random() < .3:
            s = bytes(g.choice(alpha) for _ in range(g.randrange(20)))
        return dict(op=dec, str=mutate(g, s, alpha + b'=').hex())
    return gen


GENS['C01'] = [hexgen]
GENS['C02'] = [codecgen('to_base32', 'from_base32', ref.B32, ref.to_base32, True)]
GENS['C03'] = [codecgen('to_base32_raw', 'from_base32_raw', bytes(range(32)), ref.to_base32_raw)]
GENS['C04'] = [codecgen('to_base64', 'from_base64', ref.B64, ref.to_base64),
               codecgen('to_base64_urlsafe', 'from_base64_urlsafe', ref.B64U, ref.to_base64u)]


# ---------------------------------------------------------------- variable length integers
def encint(name, ref_f, signed):
    def f(L, c):
        v = c['value'] & (1 << 64) - 1
        if signed and v >> 63:
            v -= 1 << 64
        exp = ref_f(v)
        o = L.out(10)
        r = L.call(name, v & (1 << 64) - 1, o)
        want('length', r, len(exp))
        want('bytes', L.get(o, len(exp)), exp)
    return f


def decint(name, signed):
    def f(L, c):
        b = h(c['buf'])
        n, v = ref.unvarint(b)
        o = L.out(8)
        r = L.call(name, L.inp(b), len(b), o)
        want('size read', r, n)
        if n:
            want('value', int.from_bytes(L.get(o, 8), 'little', signed=signed), ref.unzig(v) if signed else v)
    return f


OPS['encode_varint'] = encint('fingera_encode_varint', ref.varint, False)
OPS['encode_zigzag'] = encint('fingera_encode_zigzag', lambda v: ref.varint(ref.zig(v)), True)
OPS['decode_varint'] = decint('fingera_decode_varint', False)
OPS['decode_zigzag'] = decint('fingera_decode_zigzag', True)


def rint(g):
    k = g.randrange(6)
    if k == 0:
        return (ref.BASE(g.randrange(1, 12)) + g.randrange(-3, 4)) & (1 << 64) - 1
    if k == 1:
        return ((1 << g.randrange(65)) + g.randrange(-3, 4)) & (1 << 64) - 1
    if k == 2:
        return -g.randrange(1, 4) & (1 << 64) - 1
    if k == 3:
        return ((ref.BASE(g.randrange(1, 12)) >> 1) * g.choice((1, -1)) + g.randrange(-3, 4)) & (1 << 64) - 1
    return g.getrandbits(64) >> g.randrange(64)


def intgen(kind):
    def gen(g):
        v = rint(g)
        if g.random() < .5:
            return dict(op='encode_' + kind, value=v)
        k = g.randrange(4)
        if k == 0:
            b = ref.varint(v) + g.randbytes(g.randrange(3))
        elif k == 1:
            b = mutate(g, ref.varint(v))
        elif k == 2:
            n = g.randrange(12)
            b = bytes(g.choice((0x80, 0xff, 0xfe, g.randrange(128, 256))) for _ in range(n)) + bytes([g.randrange(128)])
        else:
            v = (1 << 64) + g.randrange(-4, 300)
            d = v - ref.BASE(10)
            b = bytes((d >> 7 * (9 - i) & 127) | (128 if i < 9 else 0) for i in range(10))
        return dict(op='decode_' + kind, buf=b[:20].hex())
    return gen


GENS['C11'] = [intgen('varint')]
GENS['C12'] = [intgen('zigzag')]


# ---------------------------------------------------------------- hashes
def hasher(name, f, n):
    def run(L, c):
        m = h(c['msg']) if 'msg' in c else bytes(c['zeros'])
        o = L.out(n)
        L.call(name, L.inp(m), len(m), o, res='void')
        want(name, L.get(o, n), f(m))
    return run


HASHES = {'sha1': ('fingera_sha1', ref.sha1, 20), 'ripemd160': ('fingera_ripemd160', ref.ripemd160, 20),
          'sha256': ('fingera_sha2_256', ref.sha256, 32), 'sha512': ('fingera_sha2_512', ref.sha512, 64),
          'hash160': ('fingera_btc_hash160', ref.hash160, 20), 'hash256': ('fingera_btc_hash256', ref.hash256, 32)}
for _k, _v in HASHES.items():
    OPS[_k] = hasher(*_v)


def hashgen(name, block):
    def gen(g):
        k = g.randrange(6)
        n = g.randrange(300) if k < 3 else block * g.randrange(5) + g.randrange(-20, 20) if k < 5 else g.randrange(3000)
        return dict(op=name, msg=rbytes(g, max(0, n)).hex())
    return gen


def hmacer(name, f, n):
    def run(L, c):
        k, m = h(c['key']), h(c['msg'])
        o = L.out(n)
        L.call(name, L.inp(k), len(k), L.inp(m), len(m), o, res='void')
        want(name, L.get(o, n), f(k, m))
    return run


OPS['hmac256'] = hmacer('fingera_hmac_sha256', ref.hmac256, 32)
OPS['hmac512'] = hmacer('fingera_hmac_sha512', ref.hmac512, 64)


def hmacgen(name, block):
    def gen(g):
        kl = g.choice((g.randrange(10), block + g.randrange(-2, 3), g.randrange(3 * block)))
        ml = g.choice((g.randrange(10), block * g.randrange(3) + g.randrange(block), g.randrange(600)))
        return dict(op=name, key=rbytes(g, kl).hex(), msg=rbytes(g, ml).hex())
    return gen


@op
def hash256_d64(L, c):
    b = h(c['in'])
    n = len(b) // 64
    o = L.out(32 * n)
    L.call('fingera_btc_hash256_d64', o, L.inp(b), n, res='void')
    want('d64', L.get(o, 32 * n), b''.join(ref.hash256(b[64 * i:64 * i + 64]) for i in range(n)))


@op
def bip32_hash(L, c):
    o = L.out(64)
    L.call('fingera_btc_bip32_hash', L.inp(h(c['chain_code'])), c['child'], c['header'], L.inp(h(c['data'])), o, res='void')
    want('bip32 hash', L.get(o, 64), ref.bip32_hash(h(c['chain_code']), c['child'], c['header'], h(c['data'])))


GENS['C13'] = [hashgen('sha1', 64), hashgen('ripemd160', 64)]
GENS['C14'] = [hashgen('sha256', 64), hashgen('sha512', 128)]
GENS['C15'] = [hmacgen('hmac256', 64), hmacgen('hmac512', 128)]
GENS['C16'] = [hashgen('hash160', 64), hashgen('hash256', 64),
               lambda g: dict(op='hash256_d64', **{'in': rbytes(g, 64 * g.randrange(6)).hex()}),
               lambda g: dict(op='bip32_hash', chain_code=rbytes(g, 32).hex(), child=g.choice((0, 1, 1 << 31, g.getrandbits(32))),
                              header=g.choice((0, 2, 3, g.randrange(256))), data=rbytes(g, 32).hex())]
HUGE = {'C13': [dict(op=o, zeros=n) for o in ('sha1', 'ripemd160') for n in ((1 << 29) + 5,)],
        'C14': [dict(op=o, zeros=n) for o in ('sha256', 'sha512') for n in ((1 << 29) + 5,)]}


# ---------------------------------------------------------------- base58
@op
def to_base58(L, c):
    b = h(c['buf'])
    exp = ref.to_base58(b)
    n = L.call('vp_to_base58_length', len(b))
    if n < len(exp):
        raise small(Bad('announced length %d is below the text length %d' % (n, len(exp))))
    o = L.out(n)
    r = L.call('fingera_to_base58', L.inp(b), len(b), o)
    want('length', r, len(exp))
    want('text', L.get(o, r), exp)


@op
def from_base58(L, c):
    s = h(c['str'])
    exp = ref.from_base58(s)
    n = L.call('vp_from_base58_length', len(s))
    if exp is not None and n < len(exp):
        raise small(Bad('announced length %d is below the data length %d' % (n, len(exp))))
    o = L.out(n)
    r = L.call('fingera_from_base58', L.inp(s), len(s), o)
    want('length', r, len(exp or b''))
    want('bytes', L.get(o, r), exp or b'')


@op
def to_base58check(L, c):
    b, p = h(c['buf']), h(c['prefix'])
    exp = ref.to_base58check(b, p)
    n = L.call('vp_to_base58_check_length', len(b), len(p))
    o = L.out(max(n, len(exp)) if n < len(exp) else n)
    if n < len(exp):
        raise small(Bad('announced length %d is below the text length %d' % (n, len(exp))))
    r = L.call('fingera_to_base58_check', L.inp(b), len(b), L.inp(p), len(p), o)
    want('length', r, len(exp))
    want('text', L.get(o, r), exp)


@op
def from_base58check(L, c):
    s = h(c['str'])
    exp = ref.from_base58check(s)
    n = L.call('vp_from_base58_check_length', len(s))
    o = L.out(n)
    r = L.call('fingera_from_base58_check', L.inp(s), len(s), o)
    want('length', r, len(exp or b''))
    want('bytes', L.get(o, r), exp or b'')


def space(g, s):
    k = g.randrange(8)
    a = bytes(g.choice(ref.SPACE) for _ in range(g.randrange(1, 3)))
    if k == 0:
        return a + s
    if k == 1:
        return s + a
    if k == 2:
        return a + s + a
    if k == 3 and s:
        i = g.randrange(len(s))
        return s[:i] + a + s[i:]
    return s


def b58gen(g):
    b = rbytes(g, rlen(g, 250))
    if g.random() < .3:
        return dict(op='to_base58', buf=b.hex())
    s = ref.to_base58(b)
    k = g.randrange(5)
    if k == 0:
        s = bytes(g.choice(ref.B58) for _ in range(rlen(g)))
    elif k == 1:
        s = b'z' * rlen(g)
    elif k == 2:
        s = b'1' * g.randrange(200) + s
    return dict(op='from_base58', str=space(g, mutate(g, s, ref.B58) if g.random() < .6 else s).hex())


def b58cgen(g):
    b = rbytes(g, rlen(g, 200))
    p = rbytes(g, g.choice((0, 1, 1, 4, g.randrange(9))))
    if g.random() < .35:
        return dict(op='to_base58check', buf=b.hex(), prefix=p.hex())
    s = ref.to_base58check(b, p)
    k = g.randrange(8)
    if k == 0:          # checksum off by one bit
        d = bytearray(ref.from_base58(s))
        d[g.randrange(len(d))] ^= 1 << g.randrange(8)
        s = ref.to_base58(bytes(d))
    elif k == 1:
        d = bytearray(ref.from_base58(s))
        d[-1 - g.randrange(4)] ^= 1 << g.randrange(8)
        s = ref.to_base58(bytes(d))
    elif k == 2:
        s = ref.to_base58(rbytes(g, g.randrange(6)))
    elif k == 3:
        s = mutate(g, s, ref.B58)
    return dict(op='from_base58check', str=space(g, s).hex())


GENS['C05'] = [b58gen]
GENS['C06'] = [b58cgen]


# ---------------------------------------------------------------- bech32
@op
def bech32_encode(L, c):
    a, d = h(c['hrp']), h(c['b32'])
    exp = ref.bech32_encode(a, d)
    n = L.call('vp_bech32_encode_length', len(a), len(d))
    want('announced length', n, len(exp))
    o = L.out(n)
    L.call('fingera_bech32_encode', L.inp(a), len(a), L.inp(d), len(d), o, res='void')
    want('text', L.get(o, n), exp)


@op
def bech32_decode(L, c):
    s = h(c['str'])
    cap = c.get('cap', 90)
    exp = ref.bech32_decode(s)
    hb, b = L.out(cap), L.out(max(0, len(s) - 7))
    sz = L.out(8)
    ctypes.memmove(sz, struct.pack('<Q', cap), 8)
    r = L.call('fingera_bech32_decode', L.inp(s), len(s), hb, sz, b, res='int')
    if exp is None or len(exp[0]) > cap:
        if r >= 0:
            raise Bad('accepted with %d values' % r)
        return
    want('count', r, len(exp[1]))
    n = struct.unpack('<Q', L.get(sz, 8))[0]
    want('hrp', L.get(hb, n) if n <= cap else n, exp[0])
    want('values', L.get(b, r), exp[1])


def bech_text(g):
    a = bytes(g.randrange(33, 127) for _ in range(g.choice((1, 2, 2, 4, g.randrange(1, 84))))).lower()
    if g.random() < .5:
        a = g.choice((b'bc', b'tb', b'bcrt', b'a', b'1', b'a1b'))
    d = bytes(g.randrange(32) for _ in range(g.randrange(0, max(1, 84 - len(a)))))
    return a, d


def bechgen(g):
    a, d = bech_text(g)
    if g.random() < .25:
        return dict(op='bech32_encode', hrp=a.hex(), b32=d.hex())
    s = ref.bech32_encode(a, d)
    k = g.randrange(12)
    if k == 0:
        s = s.upper()
    elif k == 1:
        s = flipcase(g, s)
    elif k == 2:
        s = mutate(g, s, ref.CH)
    elif k == 3:          # valid checksum, length over 90
        d = bytes(g.randrange(32) for _ in range(g.randrange(80, 90)))
        s = ref.bech32_encode(a, d)
    elif k == 4:          # wrong final constant
        p = ref.polymod(ref.expand(a) + list(d) + [0] * 6) ^ g.choice((0, 0x2bc830a3, 2, 1 << 29))
        s = a + b'1' + bytes(ref.CH[x] for x in d) + bytes(ref.CH[p >> 5 * (5 - i) & 31] for i in range(6))
    elif k == 5:
        s = bytearray(s)
        for _ in range(g.randrange(1, 5)):
            s[g.randrange(len(a) + 1, len(s))] = g.choice(ref.CH)
        s = bytes(s)
    elif k == 6:          # empty prefix
        s = ref.bech32_encode(b'', d)
    elif k == 7:          # odd characters in the prefix
        s = ref.bech32_encode(a + bytes([g.choice((0x20, 0x7f, 0x80, 0, 0xff, 0x21, 0x7e))]), d[:40])
    elif k == 8:          # upper-case prefix, the rest digits only
        a = g.choice((b'A', b'AB2', b'Z9'))
        v = bytes(ref.VCH[x] for x in g.choices(b'0234567899', k=g.randrange(3)))
        s = ref.bech32_encode(a.lower(), v)
        s = s.upper() if g.random() < .5 else ref.bech32_encode(a, v)
    elif k == 9:          # no data at all / no separator
        s = ref.bech32_encode(a, b'') if g.random() < .5 else s.replace(b'1', b'q')
    elif k == 10:
        s = bytes(g.randrange(33, 127) for _ in range(g.randrange(12)))
    return dict(op='bech32_decode', str=s.hex(), cap=g.choice((90, 90, 90, len(a), max(0, len(a) - 1), g.randrange(90))))


def bech4(g):
    """a valid text with up to four substitutions in its data part must be refused"""
    a, d = bech_text(g)
    s = bytearray(ref.bech32_encode(a, d))
    if len(s) > 90:
        return bechgen(g)
    n = len(s) - len(a) - 1
    k = g.randrange(1, 5)
    if g.random() < .5:
        i0 = g.randrange(n)
        pos = [x for x in range(i0, min(n, i0 + 6))]
        g.shuffle(pos)
        pos = pos[:k]
    else:
        pos = g.sample(range(n), k)
    for p in pos:
        i = len(a) + 1 + p
        s[i] = g.choice([x for x in ref.CH if x != s[i]])
    return dict(op='bech32_refused', str=bytes(s).hex())


@op
def bech32_refused(L, c):
    s = h(c['str'])
    hb, b, sz = L.out(90), L.out(90), L.out(8)
    ctypes.memmove(sz, struct.pack('<Q', 90), 8)
    r = L.call('fingera_bech32_decode', L.inp(s), len(s), hb, sz, b, res='int')
    if r >= 0:
        raise Bad('a text with at most four substituted characters is accepted')


GENS['C07'] = [bechgen]
GENS['C08'] = [bech4, bech4, bechgen]


# ---------------------------------------------------------------- addresses
class CParam(ctypes.Structure):
    _fields_ = []
    for _n in ('pub', 'script', 'sec', 'xpub', 'xprv', 'hrp'):
        _fields_ += [(_n, ctypes.c_void_p), (_n + '_n', ctypes.c_uint)]


def cparam(L, p):
    """library parameters by index, or a custom set {name: hex}"""
    if isinstance(p, int):
        nm = ('g_mainnet_chain_parameters', 'g_testnet_chain_parameters', 'g_regnet_chain_parameters')[p]
        return ctypes.addressof(CParam.in_dll(L.so, nm)), PARAMS[p]
    s = CParam()
    P = {k: h(v) for k, v in p.items()}
    for k, v in P.items():
        setattr(s, k, L.inp(v))
        setattr(s, k + '_n', len(v))
    q = L.inp(bytes(s))
    return q, P


@op
def address_encode(L, c):
    """kind 1..5"""
    k, d = c['kind'], h(c['data'])
    q, P = cparam(L, c['param'])
    if k in (1, 2):
        exp = ref.to_base58check(d, P['pub' if k == 1 else 'script'])
        need = L.call('vp_to_base58_check_length', len(d), len(P['pub' if k == 1 else 'script']))
    else:
        ver, prog = (d[0], d[1:]) if k == 5 else (0, d)
        bad = k == 5 and not (3 <= len(d) <= 41 and 1 <= d[0] <= 16) or k in (3, 4) and len(d) != (20, 32)[k - 3]
        if bad and k < 5 and not (c.get('ndebug') and NDEBUG):
            return      # stops at an assertion
        exp = b'' if bad else ref.bech32_encode(P['hrp'], bytes([ver]) + ref.to_base32_raw(prog))
        need = len(exp)
    cap = c['cap']
    o = L.out(cap)
    nm = ('pubkey', 'script', 'witnessv0_keyhash', 'witnessv0_scripthash', 'witness_unknown')[k - 1]
    r = L.call('fingera_to_address_' + nm, L.inp(d), len(d), o, cap, q)
    if r > cap:
        raise small(Bad('returned size %d over out_size %d' % (r, cap)))
    if r == 0:
        if exp and cap >= need:
            raise Bad('refused although %d bytes suffice' % need)
        if L.get(o, cap) != b'\xa5' * cap and not exp:
            raise Bad('output written on failure')
        return
    want('length', r, len(exp))
    want('text', L.get(o, r), exp)


@op
def address_decode(L, c):
    s = h(c['str'])
    q, P = cparam(L, c['param'])
    cap = c.get('cap', len(s))
    exp = ref.decode_address(s, P)
    o, sz = L.out(cap), L.out(8)
    ctypes.memmove(sz, struct.pack('<Q', cap), 8)
    r = L.call('fingera_btc_address_decode', L.inp(s), len(s), o, sz, q, res='int')
    if cap < len(s):
        if r and r != exp[0]:
            raise Bad('kind %d, expected %d' % (r, exp[0]))
        if r == 0:
            return
    want('kind', r, exp[0])
    if r:
        n = struct.unpack('<Q', L.get(sz, 8))[0]
        want('payload', L.get(o, n) if n <= cap else n, exp[1])


CUSTOM = [dict(pub='', script='05', sec='80', xpub='01', xprv='02', hrp='6263'),
          dict(pub='3040', script='304050', sec='', xpub='0102030405060708', xprv='1112131415161718', hrp='61'),
          dict(pub='0000', script='00', sec='8081', xpub='0488b21e', xprv='0488ade4', hrp='6162636465666768696a6b6c6d6e6f70'),
          dict(pub='0200', script='0201', sec='0080ef', xpub='0400b21e', xprv='0400ade4', hrp='7463')]


def near(g, pre):
    """a prefix that differs in one byte"""
    if not pre:
        return pre
    b = bytearray(pre)
    b[g.choice((0, -1, g.randrange(len(b))))] ^= g.choice((1, 32, 128, g.randrange(1, 256)))
    return bytes(b)


def rparam(g):
    k = g.randrange(5)
    return k if k < 3 else g.choice(CUSTOM)


def pset(p):
    return PARAMS[p] if isinstance(p, int) else {k: h(v) for k, v in p.items()}


def wit(g, k):
    if k == 3:
        return rbytes(g, 20)
    if k == 4:
        return rbytes(g, 32)
    return bytes([g.choice((1, 16, g.randrange(1, 17)))]) + rbytes(g, g.choice((2, 40, 20, 32, g.randrange(2, 41))))


def addrgen(g):
    p = rparam(g)
    P = pset(p)
    k = g.randrange(1, 6)
    d = rbytes(g, g.choice((20, 20, 32, g.randrange(60)))) if k < 3 else wit(g, k)
    if g.random() < .3:
        return dict(op='address_encode', kind=k, data=d.hex(), param=p, cap=200)
    q = p if g.random() < .8 else rparam(g)
    if k < 3:
        s = ref.to_base58check(d, P['pub' if k == 1 else 'script'])
        if g.random() < .2:
            s = ref.to_base58check(d, g.choice((rbytes(g, g.randrange(3)), near(g, P['pub']), near(g, P['script']))))
    else:
        ver, prog = (d[0], d[1:]) if k == 5 else (0, d)
        z = g.randrange(8)
        if z == 0:
            ver = g.choice((0, 1, 16, 17, 31))
        if z == 1:
            prog = rbytes(g, g.choice((0, 1, 2, 19, 20, 21, 31, 32, 33, 40, 41, 42)))
        gr = bytearray(ref.to_base32_raw(prog))
        if z == 2 and gr:
            gr[-1] |= 1 << g.randrange(5)
        if z == 3:
            gr += bytes([0] * g.randrange(1, 4))
        hrp = P['hrp'] if g.random() < .9 else g.choice((b'bc', b'tb', b'b', b'bcx'))
        s = ref.bech32_encode(hrp, bytes([ver]) + bytes(gr))
        if g.random() < .2:
            s = s.upper()
    if g.random() < .2:
        s = mutate(g, s, ref.CH + ref.B58)
    if g.random() < .1:
        s = s[:g.randrange(10)]
    c = dict(op='address_decode', str=s.hex(), param=q)
    if g.random() < .1:
        c['cap'] = g.choice((len(s) + g.randrange(50), max(0, len(s) - 1), g.randrange(len(s) + 1), 33, 32, 21, 20))
    return c


def addrcap(g):
    p = rparam(g)
    k = g.randrange(1, 6)
    d = rbytes(g, g.choice((20, 32, g.randrange(60)))) if k < 3 else wit(g, k)
    if k == 5 and g.random() < .3:
        d = rbytes(g, g.choice((1, 2, 3, 41, 42, 43, 60, 100)))
    if NDEBUG and g.random() < .5:
        k = g.choice((3, 4))
        d = rbytes(g, g.choice((0, 1, 2, 19, 20, 21, 31, 32, 33, 34, 35, 39, 40, g.randrange(200))))
        return dict(op='address_encode', kind=k, data=d.hex(), param=p, cap=g.choice((len(d) * 2 + 50, g.randrange(100))), ndebug=1)
    P = pset(p)
    if k < 3:
        x = P['pub' if k == 1 else 'script']
        n = (len(d) + len(x) + 4) * 138 // 100 + 2
        m = len(ref.to_base58check(d, x))
    else:
        n = m = len(P['hrp']) + 7 + (0 if k == 5 else 1) + (len(d) - (k == 5)) * 8 // 5 + 2
    return dict(op='address_encode', kind=k, data=d.hex(), param=p, cap=max(0, g.choice((n, n - 1, m, m - 1, n + 1, 0, g.randrange(n + 10), n + g.randrange(-5, 3)))))


GENS['C09'] = [addrgen]
GENS['C10'] = [addrcap]


# ---------------------------------------------------------------- private keys
def rkey(g):
    k = g.randrange(8)
    v = g.randrange(1, ref.N)
    if k == 0:
        v = g.choice((1, 2, ref.N - 1, ref.N // 2, ref.N // 2 + 1, 0x80 << 248))
    elif k == 1:
        v = g.getrandbits(g.randrange(1, 250)) or 1
    return v.to_bytes(32, 'big')


@op
def key_to_string(L, c):
    k = h(c['key'])
    q, P = cparam(L, c['param'])
    comp = c['compressed']
    exp = ref.to_base58check(k + (b'\x01' if comp else b''), P['sec'])
    o = L.out(max(len(exp), L.call('vp_key_string_max_length') if len(P['sec']) <= 8 else 0))
    r = L.call('fingera_btc_key_to_string', L.inp(k), o, comp & 0xffffffff, q)
    want('length', r, len(exp))
    want('text', L.get(o, r), exp)


@op
def key_from_string(L, c):
    s = h(c['str'])
    q, P = cparam(L, c['param'])
    d = ref.from_base58check(s)
    exp = None
    if d is not None and d[:len(P['sec'])] == P['sec']:
        x = d[len(P['sec']):]
        if len(x) == 32:
            exp = (x, 0)
        elif len(x) == 33 and x[32] == 1:
            exp = (x[:32], 1)
    o, f = L.out(32), L.out(4)
    r = L.call('fingera_btc_key_from_string', L.inp(s), len(s), o, f, q, res='int')
    want('accepted', r != 0, exp is not None)
    if exp:
        want('key', L.get(o, 32), exp[0])
        want('compressed flag', struct.unpack('<i', L.get(f, 4))[0] != 0, exp[1] != 0)


def wifgen(g):
    p = rparam(g)
    P = pset(p)
    k = rkey(g)
    if g.random() < .3:
        return dict(op='key_to_string', key=k.hex(), param=p, compressed=g.choice((0, 1, 1, 2, -1)))
    z = g.randrange(8)
    d = k + g.choice((b'', b'\x01', b'\x01'))
    pre = P['sec']
    if z == 0:
        d = k + bytes([g.choice((0, 2, 255, g.randrange(256)))])
    elif z == 1:
        d = rbytes(g, g.choice((30, 31, 32, 33, 34, 35, 0, 1, 100)))
    elif z == 2:
        pre = g.choice((rbytes(g, g.choice((len(pre), g.randrange(6)))), near(g, pre)))
    elif z == 3:
        d = k + b'\x01\x01'
    s = ref.to_base58check(d, pre)
    if g.random() < .2:
        s = mutate(g, s, ref.B58)
    return dict(op='key_from_string', str=space(g, s).hex(), param=p if g.random() < .9 else rparam(g))


GENS['C17'] = [wifgen]


@op
def key_encode(L, c):
    k, comp = h(c['key']), c['compressed']
    exp = ref.der_priv(k, bool(comp))
    o = L.out(len(exp))
    r = L.call('fingera_btc_key_encode', L.inp(k), o, len(exp), res='int')
    want('accepted', r != 0, True)
    want('DER', L.get(o, len(exp)), exp)


@op
def key_decode(L, c):
    s = h(c['str'])
    exp = ref.der_priv_decode(s)
    o = L.out(32)
    r = L.call('fingera_btc_key_decode', L.inp(s), len(s), o, res='int')
    want('accepted', r != 0, exp is not None)
    if exp:
        want('key', L.get(o, 32), exp)


_der = {}


def dergen(g):
    k = rkey(g)
    comp = g.randrange(2)
    if g.random() < .1:
        return dict(op='key_encode', key=k.hex(), compressed=comp)
    if comp not in _der:
        _der[comp] = ref.der_priv(bytes(31) + b'\x01', comp)
    s = bytearray(_der[comp])
    o = 8 if comp else 9
    s[o:o + 32] = k
    z = g.randrange(8)
    if z == 0:
        s[o:o + 32] = g.choice((bytes(32), ref.N.to_bytes(32, 'big'), (ref.N + 1).to_bytes(32, 'big'), b'\xff' * 32))
    elif z == 1:
        s = s[:g.randrange(len(s))]
    elif z == 2:
        s[g.randrange(o)] = g.choice((0, 1, 0x80, 0x81, 0x82, 0x83, 0xff, g.randrange(256)))
    elif z in (3, 4):         # short key fields, odd length octets
        n = g.choice((0, 1, 31, 32, 33, g.randrange(40), 128, 255))
        key = rbytes(g, n)
        body = b'\x02\x01\x01\x04' + bytes([n]) + key + g.randbytes(g.randrange(5))
        lb = g.randrange(0, 4)
        ln = len(body) + g.choice((0, 0, 0, 1, -1, -5, -len(body), 256))
        if ln < 0:
            ln = 0
        s = b'\x30' + bytes([0x80 | lb]) + ((ln & (1 << 8 * lb) - 1).to_bytes(lb, 'big')) + body
    elif z == 5:
        s = s + g.randbytes(g.randrange(5))
    elif z == 6:
        n = g.randrange(33)
        s = s[:o - 1] + bytes([n]) + s[o:]
    return dict(op='key_decode', str=bytes(s).hex())


GENS['C18'] = [dergen]


# ---------------------------------------------------------------- signatures
@op
def signature_decode(L, c):
    """lax DER; the opaque result is read back through the library's own serialiser"""
    s = h(c['str']) if 'str' in c else h(c['head']) + bytes(c['zeros']) + h(c['tail'])
    exp = ref.sig_lax(s)
    o = L.out(64)
    r = L.call('fingera_btc_signature_decode', L.inp(s), len(s), o, res='int')
    want('accepted', r != 0, exp is not None)
    if exp:
        d = L.out(72)
        n = L.call('fingera_btc_signature_encode', o, d)
        want('canonical DER', L.get(d, n), ref.sig_der(*exp))


def rscalar(g):
    return g.choice((g.randrange(1, ref.N), 0, 1, ref.N - 1, ref.N, ref.N + 1, 1 << 255, (1 << 256) - 1, g.getrandbits(g.randrange(1, 257)), 127, 128, 255, 256))


def laxgen(g):
    def integer(x):
        b = x.to_bytes(max(1, (x.bit_length() + 7) // 8), 'big')
        b = bytes(g.choice((0, 0, 1, 1, 5, 40))) + b
        if g.random() < .05:
            b = b''
        n = len(b)
        z = g.randrange(6)
        if z == 0:
            zz = g.randrange(5)
            l = bytes([0x80 | (zz + 1)]) + bytes(zz) + bytes([n])
        elif z == 1:
            l = bytes([0x80 | 2]) + n.to_bytes(2, 'big')
        elif z == 2 and g.random() < .3:
            k = g.randrange(3, 6)
            l = bytes([0x80 | k]) + g.choice((n.to_bytes(k, 'big'), b'\x01' + bytes(k - 1)))
        elif z == 3 and g.random() < .3:
            l = bytes([0x80])
        else:
            l = bytes([n]) if n < 128 else b'\x81' + bytes([n])
        return b'\x02' + l + b
    v = integer(rscalar(g)) + integer(rscalar(g))
    n = len(v)
    z = g.randrange(8)
    hd = bytes([n & 127]) if z < 4 else bytes([0x81, n & 255]) if z == 4 else bytes([0x82, n >> 8, n & 255]) if z == 5 else bytes([g.randrange(256)]) if z == 6 else bytes([0x80 | g.randrange(4)]) + bytes(g.randrange(4))
    s = b'\x30' + hd + v + g.randbytes(g.choice((0, 0, 2)))
    z = g.randrange(6)
    if z == 0:
        s = s[:g.randrange(len(s) + 1)]
    elif z == 1:
        s = mutate(g, s, b'\x00\x01\x02\x30\x7f\x80\x81\x82\x83\x84\xff')
    return dict(op='signature_decode', str=s.hex())


GENS['C19'] = [laxgen]
HUGE['C19'] = [dict(op='signature_decode', head=a, zeros=(1 << 24) - 1, tail=b) for a, b in (('30800201010284010000' + '00', '01'), ('30800284010000' + '00', '01020101'))]
HUGE['C19'] += [dict(op='signature_decode', head=a, zeros=(1 << 24) - 2, tail=b) for a, b in (('308002010102' + '83ffffff', '01'), ('308002' + '83ffffff', '01020101'))]


@op
def sign(L, c):
    k, m = h(c['key']), h(c['hash'])
    s = L.out(64)
    L.call('fingera_btc_key_sign', L.inp(k), L.inp(m), s, res='void')
    d = L.out(72)
    n = L.call('fingera_btc_signature_encode', s, d)
    b = L.get(d, n)
    rs = ref.sig_lax(b)
    if not rs or ref.sig_der(*rs) != b:
        raise Bad('signature is not canonical DER: ' + b.hex())
    r, v = rs
    if r >> 255:
        raise Bad('R is not low: ' + b.hex())
    if v > ref.N // 2:
        raise Bad('S is not low: ' + b.hex())
    P = ref.pmul(int.from_bytes(k, 'big'))
    if not ref.ecdsa_ok(P, m, r, v):
        raise Bad('signature does not verify: ' + b.hex())
    want('signature', b, ref.sig_der(*ref.sign_low_r(int.from_bytes(k, 'big'), m)))
    pub = L.out(64)
    L.call('fingera_btc_key_get_pub', L.inp(k), pub, res='void')
    want('verify', L.call('fingera_btc_key_verify', pub, L.inp(m), s, res='int') != 0, True)
    # the high-S twin, through the library's decoder
    hs = L.out(64)
    tw = ref.sig_der(r, ref.N - v)
    L.call('fingera_btc_signature_decode', L.inp(tw), len(tw), hs, res='int')
    want('verify of the high-S twin', L.call('fingera_btc_key_verify', pub, L.inp(m), hs, res='int') != 0, True)
    m2 = bytes([m[0] ^ 1]) + m[1:]
    want('verify of another hash', L.call('fingera_btc_key_verify', pub, L.inp(m2), s, res='int') != 0, False)
    k2 = (int.from_bytes(k, 'big') + 2) % ref.N or 1
    p2 = L.out(64)
    L.call('fingera_btc_key_get_pub', L.inp(k2.to_bytes(32, 'big')), p2, res='void')
    want('verify under another key', int.from_bytes(m, 'big') % ref.N != 0 and L.call('fingera_btc_key_verify', p2, L.inp(m), s, res='int') != 0, False)
    # the answer does not depend on what was asked before
    if int.from_bytes(m, 'big') % ref.N:
        g = random.Random(k + m)
        for _ in range(10):
            a, b, e = g.random() < .6, g.random() < .6, g.random() < .6
            want('verify again', L.call('fingera_btc_key_verify', pub if a else p2, L.inp(m if b else m2), s if e else hs, res='int') != 0, a and b)
    want('inputs', L.get(s, 0), b'')


GENS['C20'] = [lambda g: dict(op='sign', key=rkey(g).hex(), hash=rbytes(g, 32).hex())]


@op
def pubkey_codec(L, c):
    b = h(c['enc'])
    p = ref.parse(b)
    o = L.out(64)
    r = L.call('fingera_btc_pubkey_decode', L.inp(b), len(b), o, res='int')
    want('accepted', r != 0, p is not None)
    if p:
        for n in (33, 65):
            e = L.out(n)
            want('encoded', L.call('fingera_btc_pubkey_encode', o, e, n, res='int') != 0, True)
            want('encoding', L.get(e, n), ref.ser(p, n == 33))
            kid = L.out(20)
            L.call('fingera_btc_pubkey_keyid', o, n == 33 and c.get('flag', 1) or 0, kid, res='void')
            want('key id', L.get(kid, 20), ref.hash160(ref.ser(p, n == 33)))
        e = L.inp(ref.ser(p))
        fp = L.call('fingera_btc_pubkey_fingerprint', e, res='u32')
        want('fingerprint', struct.pack('<I', fp), ref.hash160(ref.ser(p))[:4])


@op
def key_ids(L, c):
    k = h(c['key'])
    p = ref.pmul(int.from_bytes(k, 'big'))
    for comp in (0, c.get('flag', 1)):
        o = L.out(20)
        L.call('fingera_btc_key_keyid', L.inp(k), comp & 0xffffffff, o, res='void')
        want('key id', L.get(o, 20), ref.hash160(ref.ser(p, bool(comp))))
        fp = L.call('fingera_btc_key_fingerprint', L.inp(k), comp & 0xffffffff, res='u32')
        want('fingerprint', struct.pack('<I', fp), ref.hash160(ref.ser(p, bool(comp)))[:4])


def pubgen(g):
    p = ref.pmul(int.from_bytes(rkey(g), 'big'))
    if g.random() < .2:
        return dict(op='key_ids', key=rkey(g).hex(), flag=g.choice((1, 2, -1, 256)))
    b = bytearray(ref.ser(p, g.random() < .5))
    z = g.randrange(5)
    if z == 0:
        b[0] = g.choice((0, 2, 3, 4, 5, 6, 7, 255))
    elif z == 1:
        b[g.randrange(len(b))] ^= 1 << g.randrange(8)
    return dict(op='pubkey_codec', enc=bytes(b).hex(), flag=g.choice((1, 1, 2, 256)))


GENS['C30'] = [pubgen]


# ---------------------------------------------------------------- BIP32
@op
def key_derive(L, c):
    k, cc, i = h(c['key']), h(c['chain']), c['child']
    exp = ref.ckd_priv(k, cc, i)
    o, oc = L.out(32), L.out(32)
    r = L.call('fingera_btc_key_derive', L.inp(k), L.inp(cc), o, oc, i, res='int')
    want('accepted', r != 0, exp is not None)
    if exp:
        want('child key', L.get(o, 32), exp[0])
        want('child chain code', L.get(oc, 32), exp[1])


@op
def pubkey_derive(L, c):
    K, cc, i = h(c['pub']), h(c['chain']), c['child']
    exp = ref.ckd_pub(K, cc, i)
    o, oc = L.out(33), L.out(32)
    r = L.call('fingera_btc_pubkey_derive', L.inp(K), L.inp(cc), o, oc, i, res='int')
    want('accepted', r != 0, exp is not None)
    if exp:
        want('child key', L.get(o, 33), exp[0])
        want('child chain code', L.get(oc, 32), exp[1])


class Ext(ctypes.Structure):
    _fields_ = [('depth', ctypes.c_uint8), ('fingerprint', ctypes.c_uint32), ('child', ctypes.c_uint32), ('chain', ctypes.c_uint8 * 32)]


class ExKey(ctypes.Structure):
    _fields_ = [('ext', Ext), ('key', ctypes.c_uint8 * 32)]


class ExPub(ctypes.Structure):
    _fields_ = [('ext', Ext), ('key', ctypes.c_uint8 * 33)]


def mkex(T, depth, fp, child, cc, key):
    s = T()
    s.ext.depth, s.ext.fingerprint, s.ext.child = depth, fp, child
    s.ext.chain[:] = list(cc)
    s.key[:] = list(key)
    return bytes(s)


def rdex(T, b):
    s = T.from_buffer_copy(b)
    return s.ext.depth, s.ext.fingerprint, s.ext.child, bytes(s.ext.chain), bytes(s.key)


@op
def exkey_init(L, c):
    seed = h(c['seed'])
    o = L.out(ctypes.sizeof(ExKey))
    L.call('fingera_exkey_init', o, L.inp(seed), len(seed), res='void')
    I = ref.hmac512(b'Bitcoin seed', seed)
    want('master key', rdex(ExKey, L.get(o, ctypes.sizeof(ExKey))), (0, 0, 0, I[32:], I[:32]))


@op
def exkey_derive(L, c):
    k, cc, i = h(c['key']), h(c['chain']), c['child']
    d, fp = c['depth'], c['fp']
    exp = ref.ckd_priv(k, cc, i) if d < 255 else None
    o = L.out(ctypes.sizeof(ExKey))
    r = L.call('fingera_exkey_derive', L.inp(mkex(ExKey, d, c['fp0'], c['child0'], cc, k)), o, i, fp, res='int')
    want('accepted', r != 0, exp is not None)
    if exp:
        want('derived', rdex(ExKey, L.get(o, ctypes.sizeof(ExKey))), (d + 1, fp, i, exp[1], exp[0]))


@op
def expub_derive(L, c):
    K, cc, i = h(c['pub']), h(c['chain']), c['child']
    d, fp = c['depth'], c['fp']
    exp = ref.ckd_pub(K, cc, i) if d < 255 else None
    o = L.out(ctypes.sizeof(ExPub))
    r = L.call('fingera_expubkey_derive', L.inp(mkex(ExPub, d, c['fp0'], c['child0'], cc, K)), o, i, fp, res='int')
    want('accepted', r != 0, exp is not None)
    if exp:
        want('derived', rdex(ExPub, L.get(o, ctypes.sizeof(ExPub))), (d + 1, fp, i, exp[1], exp[0]))


@op
def exkey_get_pub(L, c):
    k, cc = h(c['key']), h(c['chain'])
    o = L.out(ctypes.sizeof(ExPub))
    L.call('fingera_exkey_get_pub', L.inp(mkex(ExKey, c['depth'], c['fp0'], c['child0'], cc, k)), o, res='void')
    want('neutered', rdex(ExPub, L.get(o, ctypes.sizeof(ExPub))), (c['depth'], c['fp0'], c['child0'], cc, ref.ser(ref.pmul(int.from_bytes(k, 'big')))))


def rex(g):
    return dict(key=rkey(g).hex(), chain=rbytes(g, 32).hex(), depth=g.choice((0, 1, 254, 255, 127, 128, g.randrange(256))),
                fp0=g.getrandbits(32), child0=g.getrandbits(32), fp=g.getrandbits(32))


def derivegen(g):
    d = rex(g)
    d['child'] = g.choice((0, 1, (1 << 31) - 1, 1 << 31, (1 << 32) - 1, g.getrandbits(32), g.getrandbits(31)))
    d['op'] = g.choice(('key_derive', 'exkey_derive'))
    if g.random() < .2:
        return dict(op='exkey_init', seed=rbytes(g, g.choice((16, 32, 64, g.randrange(300)))).hex())
    return d


def pubderivegen(g):
    d = rex(g)
    d['child'] = g.choice((0, 1, (1 << 31) - 1, g.getrandbits(31)))
    d['op'] = g.choice(('pubkey_derive', 'expub_derive', 'exkey_get_pub', 'exkey_derive'))
    if d['op'].startswith(('pub', 'expub')):
        k = d.pop('key')
        b = bytearray(ref.ser(ref.pmul(int(k, 16))))
        if g.random() < .2:
            b[1 + g.randrange(32)] ^= 1 << g.randrange(8)
        d['pub'] = bytes(b).hex()
    return d


GENS['C21'] = [derivegen]
GENS['C22'] = [pubderivegen]


def ex74(depth, fp, child, cc, key33):
    return bytes([depth]) + struct.pack('<I', fp) + struct.pack('>I', child) + cc + key33


@op
def exkey_codec(L, c):
    """priv: structure <-> 74 bytes <-> text"""
    priv = c['priv']
    T = ExKey if priv else ExPub
    nm = 'fingera_exkey' if priv else 'fingera_expubkey'
    key = h(c['key'])
    val = (c['depth'], c['fp0'], c['child0'], h(c['chain']), key)
    s = mkex(T, *val)
    raw = ex74(c['depth'], c['fp0'], c['child0'], h(c['chain']), (b'\0' if priv else b'') + key)
    o = L.out(74)
    L.call(nm + '_encode', L.inp(s), o, res='void')
    want('74 bytes', L.get(o, 74), raw)
    b = L.out(ctypes.sizeof(T))
    L.call(nm + '_decode', L.inp(raw), b, res='void')
    want('structure', rdex(T, L.get(b, ctypes.sizeof(T))), val)
    q, P = cparam(L, c['param'])
    pre = P['xprv' if priv else 'xpub']
    exp = ref.to_base58check(raw, pre)
    mx = L.call('vp_exkey_string_max_length')
    if mx < len(exp) and len(pre) <= 8:
        raise small(Bad('announced text length %d is below %d' % (mx, len(exp))))
    t = L.out(max(mx, len(exp)))
    n = L.call(nm + '_to_string', L.inp(s), t, q)
    want('text', L.get(t, n), exp)


@op
def exkey_from_string(L, c):
    priv = c['priv']
    T = ExKey if priv else ExPub
    nm = 'fingera_exkey' if priv else 'fingera_expubkey'
    s = h(c['str'])
    q, P = cparam(L, c['param'])
    pre = P['xprv' if priv else 'xpub']
    d = ref.from_base58check(s)
    exp = None
    if d is not None and d[:len(pre)] == pre and len(d) == len(pre) + 74:
        x = d[len(pre):]
        if x[41] in ((0,) if priv else (2, 3)):
            exp = (x[0], struct.unpack('<I', x[1:5])[0], struct.unpack('>I', x[5:9])[0], x[9:41], x[42 if priv else 41:])
    o = L.out(ctypes.sizeof(T))
    r = L.call(nm + '_from_string', L.inp(s), len(s), o, q, res='int')
    want('accepted', r != 0, exp is not None)
    if exp:
        want('structure', rdex(T, L.get(o, ctypes.sizeof(T))), exp)


def exsergen(g):
    p = rparam(g)
    P = pset(p)
    priv = g.randrange(2)
    d = rex(g)
    key = h(d['key'])
    if not priv:
        key = bytes([g.choice((2, 3))]) + rbytes(g, 32)
    d['key'] = key.hex()
    d['child0'] = g.choice((0, 1, 1 << 31, g.getrandbits(32)))
    if g.random() < .4:
        return dict(d, op='exkey_codec', priv=priv, param=p)
    raw = ex74(d['depth'], d['fp0'], d['child0'], h(d['chain']), (b'\0' if priv else b'') + key)
    pre = P['xprv' if priv else 'xpub']
    z = g.randrange(8)
    if z == 0:
        raw = raw[:41] + bytes([g.choice((0, 1, 2, 3, 4, 255))]) + raw[42:]
    elif z == 1:
        raw = rbytes(g, g.choice((70, 73, 75, 78, 0, 10, 200)))
    elif z == 2:
        pre = g.choice((P['xprv'], P['xpub'], rbytes(g, 4), rbytes(g, len(pre)), near(g, pre), near(g, pre)))
    s = ref.to_base58check(raw, pre)
    if g.random() < .2:
        s = mutate(g, s, ref.B58)
    return dict(op='exkey_from_string', priv=priv, str=space(g, s).hex(), param=p if g.random() < .9 else rparam(g))


GENS['C23'] = [exsergen]


# ---------------------------------------------------------------- randomness
def script(L, data, chunks):
    d = L.inp(data)
    k = L.inp(struct.pack('<%dQ' % len(chunks), *[x & (1 << 64) - 1 for x in chunks]) or b'\0')
    L.var('vp_open_fail').value = 0
    L.call('vp_random_script', d, len(data), k, len(chunks), res='void')


def unscript(L):
    o, cl, bad, path = (L.var('vp_opens').value, L.var('vp_closes').value, L.var('vp_bad_fd').value, ctypes.string_at(ctypes.addressof(ctypes.c_char.in_dll(L.so, 'vp_path'))))
    L.var('vp_script').value = 0
    L.var('vp_open_fail').value = 0
    return o, cl, bad, path


@op
def rand_bytes(L, c):
    """chunks: bytes returned per read, -1 an error"""
    n, data, chunks = c['n'], h(c['data']), c['chunks'][:60]
    script(L, data, chunks)
    if c.get('open_fail'):
        L.var('vp_open_fail').value = 1
    L.var('vp_fd').value = c.get('fd', 777)
    o = L.out(n)
    r = L.call('vp_rand_guarded', o, n, res='int')
    L.var('vp_fd').value = 777
    st = unscript(L)
    ok = not c.get('open_fail')
    left, pos = n, 0
    i = 0
    while ok and left:
        k = chunks[i] if i < len(chunks) else left
        i += 1
        if k < 0:
            ok = False
            break
        k = min(k, left, len(data) - pos)
        if k == 0:
            ok = False
            break
        pos += k
        left -= k
    want('gave up', r != 0, not ok)
    if ok:
        want('bytes', L.get(o, n), data[:n])
        want('descriptor closed', (st[0], st[1], st[2]), (st[0], st[0], 0))
        if n:
            want('device', st[3], b'/dev/urandom')


@op
def key_new(L, c):
    data, chunks = h(c['data']), c['chunks'][:60]
    script(L, data, chunks)
    o = L.out(32)
    L.call('fingera_btc_key_new', o, res='void')
    used = L.call('vp_random_used')
    unscript(L)
    for i in range(0, len(data), 32):
        k = data[i:i + 32]
        if 0 < int.from_bytes(k, 'big') < ref.N:
            want('key', L.get(o, 32), k)
            return


def randgen(g):
    n = g.choice((0, 1, 32, 33, g.randrange(200)))
    c = dict(op='rand_bytes', n=n, data=g.randbytes(n + g.choice((0, 10))).hex(), chunks=[g.choice((1, 2, 5, 31, 32, 33, 1000)) for _ in range(g.randrange(12))] if g.random() < .8 else [1] * g.randrange(60))
    z = g.randrange(8)
    if g.random() < .1:
        c['fd'] = g.choice((0, 0, 1, 2, 255, 256))      # a closed standard stream frees its number
    if z == 0:
        c['open_fail'] = 1
    elif z == 1:
        c['chunks'].append(g.choice((0, -1)))
    elif z == 2:
        c['data'] = g.randbytes(n // 2).hex()
    return c


def newgen(g):
    d = b''
    for _ in range(g.choice((0, 0, 1, 2))):
        d += g.choice((bytes(32), ref.N.to_bytes(32, 'big'), b'\xff' * 32, (ref.N + g.getrandbits(100)).to_bytes(32, 'big')))
    d += rkey(g)
    return dict(op='key_new', data=(d + rkey(g)).hex(), chunks=[g.choice((1, 5, 16, 31, 32, 40)) for _ in range(g.randrange(6))] if g.random() < .8 else [1] * g.randrange(60))


GENS['C24'] = [randgen, newgen]


# ---------------------------------------------------------------- heap scratch
def wipegen(g):
    z = g.randrange(6)
    if z == 0:
        return dict(op='to_base58', buf=rbytes(g, g.randrange(90, 400)).hex())
    if z == 1:
        return dict(op='from_base58', str=mutate(g, b'1' * g.randrange(3) + bytes(g.choice(ref.B58) for _ in range(g.randrange(150, 400))), ref.B58).hex())
    if z == 2:
        return dict(op='to_base58check', buf=rbytes(g, g.randrange(100, 300)).hex(), prefix=rbytes(g, g.randrange(5)).hex())
    if z == 3:
        c = wifgen(g)
        if c['op'] == 'key_from_string':
            c['str'] = (b' ' * g.randrange(100, 200) + h(c['str'])).hex()
        return c
    if z == 4:
        p = g.randrange(3)
        pad = b' ' * g.randrange(20, 60)
        raw = ex74(1, 2, 3, rbytes(g, 32), b'\0' + rkey(g))
        return dict(op='exkey_from_string', priv=1, param=p, str=(pad + ref.to_base58check(raw, PARAMS[p]['xprv'])).hex())
    return dict(op='key_from_string', param=0, str=ref.to_base58check(rbytes(g, g.randrange(90, 200)), b'\x80').hex())


GENS['C25'] = [wipegen]


# ---------------------------------------------------------------- hex dump, life cycle, constants
@op
def hex_dump(L, c):
    b = h(c['buf'])
    L.var('vp_out_n', ctypes.c_size_t).value = 0
    L.call('fingera_hex_dump', L.inp(b), len(b), c['upper'] & 0xffffffff, res='void')
    n = L.var('vp_out_n', ctypes.c_size_t).value
    got = L.get(ctypes.c_void_p.in_dll(L.so, 'vp_out').value, n)
    want('output', got, ref.hexdump(b, c['upper']))


GENS['C26'] = [lambda g: dict(op='hex_dump', buf=rbytes(g, rlen(g) if g.random() < .95 else g.randrange(20000)).hex(), upper=g.choice((0, 1, 2, -1)))]


@op
def lifecycle(L, c):
    L.call('fingera_btc_key_uninit', res='void')
    script(L, bytes(range(40)), c['chunks'])
    L.call('fingera_btc_key_init', res='void')
    used = L.call('vp_random_used')
    st = unscript(L)
    want('random bytes used', used, 32)
    want('descriptor closed', st[:3], (1, 1, 0))
    sign(L, dict(key='11' * 32, hash='22' * 32))


GENS['C27'] = [lambda g: dict(op='lifecycle', chunks=[g.choice((1, 5, 31, 32)) for _ in range(g.randrange(4))] if g.random() < .8 else [1] * g.randrange(33))]


@op
def constants(L, c):
    for i, nm in enumerate(('g_mainnet_chain_parameters', 'g_testnet_chain_parameters', 'g_regnet_chain_parameters')):
        s = CParam.in_dll(L.so, nm)
        for k, v in PARAMS[i].items():
            n = getattr(s, k + '_n')
            want(nm + '.' + k, L.get(getattr(s, k), n), v)


GENS['C29'] = [lambda g: dict(op='constants')]


# ---------------------------------------------------------------- memory safety: every function, any input
LONG = bytes(i * i * 7 + i // 251 & 255 for i in range(65536 + 81)).hex()


def chunks(f, n, b=bytes.fromhex(LONG)):
    return b''.join(f(b[i:i + n]) for i in range(0, len(b), n)).hex()


HUGE['C01'] = [dict(op='to_hex', buf=LONG), dict(op='from_hex', str=ref.to_hex(h(LONG), 0).hex())]
HUGE['C02'] = [dict(op='to_base32', buf=LONG), dict(op='from_base32', str=chunks(ref.to_base32, 5))]
HUGE['C03'] = [dict(op='to_base32_raw', buf=LONG), dict(op='from_base32_raw', str=chunks(ref.to_base32_raw, 5))]
HUGE['C04'] = [dict(op='to_base64', buf=LONG), dict(op='to_base64_urlsafe', buf=LONG), dict(op='from_base64', str=chunks(ref.to_base64, 3)),
               dict(op='from_base64_urlsafe', str=chunks(ref.to_base64u, 3))]
HUGE['C05'] = [dict(op='to_base58', buf=LONG[:6000]), dict(op='to_base58', buf='00' * 66000 + '01'), dict(op='from_base58', str=ref.to_base58(h(LONG[:3000])).hex()),
               dict(op='from_base58', str='31' * 66000 + '35')]
HUGE['C06'] = [dict(op='to_base58check', buf=LONG[:2000], prefix='05')]
HUGE['C16'] = [dict(op='hash256_d64', **{'in': LONG * k}) for k in (8, 65)]
HUGE['C16'][1]['in'] = HUGE['C16'][1]['in'][:65538 * 128]
HUGE['C26'] = [dict(op='hex_dump', buf=LONG, upper=1)]
HUGE['C28'] = [c for p in ('C01', 'C02', 'C03', 'C04', 'C05', 'C06', 'C26') for c in HUGE[p]]


@op
def threads(L, c):
    r = L.call('vp_stress', c['seed'], c['rounds'], res='int')
    if r:
        raise Bad('eight threads: ' + ('another result than the sequential run' if r == 1 else 'two threads drew the same key'))


GENS['C31'] = [lambda g: dict(op='threads', seed=g.randrange(1 << 40), rounds=64)]


def anygen(g):
    ps = [p for p in GENS if p not in ('C28', 'C31', 'C20', 'C21', 'C22', 'C27', 'C30')]
    c = g.choice(GENS[g.choice(ps)])(g)
    if 'str' in c and g.random() < .3:
        c['str'] = g.randbytes(g.randrange(40)).hex()
    return c


GENS['C28'] = [anygen]


# ---------------------------------------------------------------- solver counterexamples -> cases
def from_model(func, m):
    """the case for a counterexample of `func`'s contract, or None"""
    if not m:
        return None
    name = func.replace('fingera_', '').replace('btc_', '')
    tab = {'sha2_256': 'sha256', 'sha2_512': 'sha512', 'hmac_sha256': 'hmac256', 'hmac_sha512': 'hmac512', 'key_new': None,
           'to_base58_check': 'to_base58check', 'from_base58_check': 'from_base58check', 'from_base32_length': 'from_base32',
           'from_base32_raw_length': None}
    name = tab.get(name, name)
    if name not in OPS:
        return None
    c = {k: v for k, v in m.items() if not k.startswith('_')}
    c['op'] = name
    return c
