"""Contracts of btc/key.c (curve part): public keys, identifiers, DER private keys, signatures, BIP 32 derivation."""
from .contract import *
from . import ir, secp, hooks
from .c_rand import initialised
from .c_hash import Bip32Hash
from .seq import *
from .loops import named


def bv(w, v):
    return z3.BitVecVal(v, w)


def bvin(ex, st, name, n):
    """n input bytes as a bit vector"""
    rid, f = in_buf(ex, st, name, n)
    return rid, keep(concat([f(z3.IntVal(i)) for i in range(n)]))


def out_bv(ex, st, rid, off, n):
    return keep(read_bv(ex, st, Ptr(rid, off), n))


def same_bytes(ex, st, rid, off, t, what):
    """the memory at rid+off holds t"""
    n = t.size() // 8
    return ex.oblige(st, keep(out_bv(ex, st, rid, off, n) == t), what)


def truth(ret):
    """the C truth value of an int"""
    b = as_bool(ret) if ret.k == 'B' else Not(eq(as_s(ret), 0))
    return zb(b)


def ser(P, n):
    return secp.SER33(P) if n == 33 else secp.SER65(P)


def b8(t, i):
    """byte i of a bit vector, first byte most significant"""
    n = t.size() // 8
    return extract(8 * (n - i) - 1, 8 * (n - i) - 8, t)


def sub_bv(t, a, b):
    n = t.size() // 8
    return extract(8 * (n - a) - 1, 8 * (n - b), t)


def hash160(ex, st, t):
    return hash_of(ex, st, 'ripemd160', 160, bv_seq(hash_of(ex, st, 'sha256', 256, bv_seq(t))))


class Key(Contract):
    uses = ('fingera_btc_hash160', 'fingera_btc_bip32_hash', 'fingera_os_rand_bytes', 'fingera_hmac_sha512')

    def setup(self, ex, st):
        initialised(ex, st)
        c = Ctx()
        return self.args(ex, st, c), c

    def valid_key(self, ex, st, c, name='key32'):
        c.key, c.k = bvin(ex, st, name, 32)
        st.add(keep(secp.SKOK(c.k)))
        return Ptr(c.key, 0)

    def pub_object(self, ex, st, c, name='pubkey64'):
        c.pub, c.P = bvin(ex, st, name, 64)
        st.add(keep(secp.PKOK(c.P)))
        secp.pub_facts(st, c.P)
        return Ptr(c.pub, 0)


# ---------------------------------------------------------------- C30
@register
class GetPub(Key):
    name = 'fingera_btc_key_get_pub'

    def args(self, ex, st, c):
        k = self.valid_key(ex, st, c)
        c.out = out_buf(ex, st, 'pubkey64', 64)
        return [k, Ptr(c.out, 0)]

    def post(self, ex, st, ret, c):
        same_bytes(ex, st, c.out, 0, keep(secp.PUB(c.k)), 'the public key of the key')


def by_len(ex, st, n, vals=(33, 65)):
    for m in vals:
        s = st.copy()
        s.add(eq(n, m))
        if ex.feasible(s, z3.BoolVal(True)):
            yield m, s


@register
class PubEncode(Key):
    name = 'fingera_btc_pubkey_encode'

    def args(self, ex, st, c):
        p = self.pub_object(ex, st, c)
        c.n = size_param(ex, st, 'encoded_pubkey_len', 33, 65)
        st.add(Or(eq(c.n, 33), eq(c.n, 65)))
        c.out = out_buf(ex, st, 'encoded_pubkey', c.n)
        return [p, Ptr(c.out, 0), U(64, c.n)]

    def post(self, ex, st, ret, c):
        ex.oblige(st, truth(ret), 'encoding succeeds')
        for m, s in by_len(ex, st, c.n):
            same_bytes(ex, s, c.out, 0, keep(ser(c.P, m)), 'the %d-byte SEC 1 form' % m)


@register
class PubDecode(Key):
    name = 'fingera_btc_pubkey_decode'

    def args(self, ex, st, c):
        c.n = size_param(ex, st, 'encoded_pubkey_len', 33, 65)
        st.add(Or(eq(c.n, 33), eq(c.n, 65)))
        c.enc, c.f = in_buf(ex, st, 'encoded_pubkey', c.n)
        c.out = out_buf(ex, st, 'pubkey64', 64)
        return [Ptr(c.enc, 0), U(64, c.n), Ptr(c.out, 0)]

    def post(self, ex, st, ret, c):
        for m, s in by_len(ex, st, c.n):
            b = keep(concat([c.f(z3.IntVal(i)) for i in range(m)]))
            ok, par = (secp.POK33, secp.PARSE33) if m == 33 else (secp.POK65, secp.PARSE65)
            ex.oblige(s, keep(truth(ret) == ok(b)), 'accepts exactly what the curve library accepts (%d bytes)' % m)
            s.add(truth(ret))
            if ex.feasible(s, z3.BoolVal(True)):
                same_bytes(ex, s, c.out, 0, keep(par(b)), 'the parsed key (%d bytes)' % m)


class Ident(Key):
    def post(self, ex, st, ret, c):
        P = c.P
        comp = as_bv(c.comp) != 0
        for n, cond in ((33, comp), (65, z3.Not(comp))):
            s = st.copy()
            s.add(keep(cond))
            if ex.feasible(s, z3.BoolVal(True)):
                self.check(ex, s, ret, c, hash160(ex, s, keep(ser(P, n))), n)

    def check(self, ex, s, ret, c, H, n):
        same_bytes(ex, s, c.out, 0, H, 'HASH160 of the %d-byte encoding' % n)


def le32(t):
    """the first four bytes, as read into a 32-bit word of this machine"""
    return keep(z3.Concat(b8(t, 3), b8(t, 2), b8(t, 1), b8(t, 0)))


@register
class KeyId(Ident):
    name = 'fingera_btc_key_keyid'

    def args(self, ex, st, c):
        k = self.valid_key(ex, st, c)
        c.P = keep(secp.PUB(c.k))
        c.comp = int_param(ex, st, 'compress')
        c.out = out_buf(ex, st, 'keyid20', 20)
        return [k, c.comp, Ptr(c.out, 0)]


@register
class PubKeyId(Ident):
    name = 'fingera_btc_pubkey_keyid'

    def args(self, ex, st, c):
        p = self.pub_object(ex, st, c)
        c.comp = int_param(ex, st, 'compress')
        c.out = out_buf(ex, st, 'keyid20', 20)
        return [p, c.comp, Ptr(c.out, 0)]


@register
class KeyFp(Ident):
    name = 'fingera_btc_key_fingerprint'

    def args(self, ex, st, c):
        k = self.valid_key(ex, st, c)
        c.P = keep(secp.PUB(c.k))
        c.comp = int_param(ex, st, 'compress')
        return [k, c.comp]

    def check(self, ex, s, ret, c, H, n):
        ex.oblige(s, keep(as_bv(ret) == le32(H)), 'the first four bytes of the identifier (%d-byte encoding)' % n)


@register
class PubFp(Key):
    name = 'fingera_btc_pubkey_fingerprint'

    def args(self, ex, st, c):
        c.enc, c.e = bvin(ex, st, 'pubkey33', 33)
        return [Ptr(c.enc, 0)]

    def post(self, ex, st, ret, c):
        ex.oblige(st, keep(as_bv(ret) == le32(hash160(ex, st, c.e))), 'the first four bytes of HASH160 of the encoding')


# ---------------------------------------------------------------- C18
def der(tag, body):
    n = len(body)
    ln = [n] if n < 128 else [0x81, n] if n < 256 else [0x82, n >> 8, n & 255]
    return [tag] + ln + body


def be(x, n):
    return list(x.to_bytes(n, 'big'))


CP = 2 ** 256 - 2 ** 32 - 977
CN = 0xFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFEBAAEDCE6AF48A03BBFD25E8CD0364141
GX = 0x79BE667EF9DCBBAC55A06295CE870B07029BFCDB2DCE28D959F2815B16F81798
GY = 0x483ADA7726A3C4655DA4FBFC0E1108A8FD17B448A68554199C47D08FFB10D4B8


def sec1(compressed):
    """ECPrivateKey (SEC 1, C.4) of secp256k1 with explicit parameters; ('k', i) and ('p', i) stand for the key bytes"""
    g = [2 + (GY & 1)] + be(GX, 32) if compressed else [4] + be(GX, 32) + be(GY, 32)
    prime_field = der(0x06, [0x2a, 0x86, 0x48, 0xce, 0x3d, 0x01, 0x01])
    field = der(0x30, prime_field + der(0x02, [0] + be(CP, 32)))
    curve = der(0x30, der(0x04, [0]) + der(0x04, [7]))
    params = der(0x30, der(0x02, [1]) + field + curve + der(0x04, g) + der(0x02, [0] + be(CN, 32)) + der(0x02, [1]))
    pub = [('p', i) for i in range(33 if compressed else 65)]
    body = der(0x02, [1]) + der(0x04, [('k', i) for i in range(32)]) + der(0xa0, params) + der(0xa1, der(0x03, [0] + pub))
    n = len(body)
    return [0x30] + ([0x81, n] if n < 256 else [0x82, n >> 8, n & 255]) + body


@register
class KeyEncode(Key):
    name = 'fingera_btc_key_encode'

    def args(self, ex, st, c):
        k = self.valid_key(ex, st, c)
        c.n = size_param(ex, st, 'encoded_key_len', 214, 279)
        st.add(Or(eq(c.n, 214), eq(c.n, 279)))
        c.out = out_buf(ex, st, 'encoded_key', c.n)
        return [k, Ptr(c.out, 0), U(64, c.n)]

    def post(self, ex, st, ret, c):
        ex.oblige(st, truth(ret), 'exporting succeeds')
        for m, s in by_len(ex, st, c.n, (214, 279)):
            D = sec1(m == 214)
            ex.oblige(s, len(D) == m, 'announced size %d' % m)
            P = keep(ser(secp.PUB(c.k), 33 if m == 214 else 65))
            for i, x in enumerate(D):
                w = bv(8, x) if isinstance(x, int) else b8(c.k if x[0] == 'k' else P, x[1])
                ex.oblige(s, keep(bv8(ex, s, c.out, i) == w), 'byte %d of the SEC 1 structure (%d bytes)' % (i, m), share=m)


@register
class KeyDecode(Key):
    """30 8x <len> 02 01 01 04 <n <= 32> <n bytes>"""
    name = 'fingera_btc_key_decode'

    def args(self, ex, st, c):
        c.n = size_param(ex, st, 'encoded_key_len', 0, 1 << 61)
        c.enc, c.f = in_buf(ex, st, 'encoded_key', c.n)
        c.out = out_buf(ex, st, 'key32', 32)
        return [Ptr(c.enc, 0), U(64, c.n), Ptr(c.out, 0)]

    def post(self, ex, st, ret, c):
        n = c.n
        acc = truth(ret)
        f = lambda i: c.f(z3.IntVal(i))
        cases = []
        for lenb in (1, 2):
            o = 2 + lenb                       # first byte of the sequence body
            ln = bv2int(f(2)) if lenb == 1 else add(mul(bv2int(f(2)), 256), bv2int(f(3)))
            osl = bv2int(f(o + 4))
            head = z3.And(f(0) == 0x30, f(1) == 0x80 + lenb, f(o) == 2, f(o + 1) == 1, f(o + 2) == 1, f(o + 3) == 4)
            size = And(le(o + 5, n), le(add(o, ln), n), le(osl, 32), le(add(o + 5, osl), n))
            cases.append((o + 5, osl, keep(z3.And(head, zb(size)))))
        good = []
        for o, osl, cond in cases:
            s = st.copy()
            s.add(cond)
            if not ex.feasible(s, z3.BoolVal(True)):
                good.append(z3.And(cond))
                continue
            bs = []
            for i in range(32):
                # byte i of the left-padded key
                pad = lt(i, sub(32, osl))
                bs.append(z3.If(zb(pad), bv(8, 0), c.f(ival(add(o - 32 + i, osl)))))
            K = keep(concat(bs))
            ex.oblige(s, keep(acc == secp.SKOK(K)), 'a well-formed text is accepted exactly when its key is valid (%d length bytes)' % (o - 7))
            s.add(acc)
            if ex.feasible(s, z3.BoolVal(True)):
                same_bytes(ex, s, c.out, 0, K, 'the key, padded with zeros on the left')
        s = st.copy()
        for _, _, cond in cases:
            s.add(z3.Not(cond))
        if ex.feasible(s, z3.BoolVal(True)):
            ex.oblige(s, z3.Not(acc), 'everything else is refused')


# ---------------------------------------------------------------- C20
def low(sig):
    return z3.Extract(511, 511, secp.COMPACT(sig)) == 0


def cnt(n):
    """extra nonce data of attempt n >= 1: the counter, little endian, zero-padded"""
    w = z3.Int2BV(ival(n), 32) if not isc(n) else bv(32, n)
    return z3.Concat(z3.Extract(7, 0, w), z3.Extract(15, 8, w), z3.Extract(23, 16, w), z3.Extract(31, 24, w), bv(224, 0))


SIGK = z3.Function('signature_of_attempt', z3.IntSort(), z3.BitVecSort(512))


def watch(ex, st, k, h, ndata, s):
    """every call of the library's signing function is one attempt; attempt n >= 1 uses the counter n as extra data"""
    n = st.g['attempts']
    c = st.g['sign']
    ex.oblige(st, keep(z3.And(k == c.k, h == c.h)), 'an attempt signs the given hash with the given key')
    if isc(n) and n == 0:
        ex.oblige(st, ndata is None, 'the first attempt uses the plain RFC 6979 nonce')
    else:
        ex.oblige(st, ndata is not None and keep(ndata == cnt(n)), 'attempt n uses the counter n as extra data')
        ex.oblige(st, le(1, n), 'the first attempt uses the plain RFC 6979 nonce')
    st.add(keep(s == SIGK(ival(n))))
    st.g['attempts'] = add(n, 1)


def grind_loop(ex, fr, header, env0, st):
    """sign until R is low: the header state after n attempts"""
    n0 = st.g.get('attempts')
    if n0 is None:
        return None
    outs = hooks.iteration(ex, fr, header, env0, st)
    backs = [o for o in outs if o[0] == 'back']
    if not backs or any(not hooks.same(sub(o[3].g['attempts'], n0), 1) for o in backs):
        return None
    sig = st.g['sign'].out
    if isc(n0) and n0 == 0:
        # the first attempt is made inside the loop: unroll it once
        res = []
        for o in hooks.iteration(ex, fr, header, env0, st, False):
            if o[0] == 'back':
                res += grind_loop(ex, fr, header, ex.phis(fr, header, o[1], o[2], o[3]), o[3]) or []
            else:
                res.append(o)
        return res
    high = lambda i: keep(z3.Not(low(SIGK(ival(i)))))
    # has the last attempt been looked at when the header is reached?
    seen = 0 if ex.decide(st, high(sub(n0, 1))) is True else 1
    n = ex.newint(st, 'attempts', 1, (1 << 32) - 2)
    hs, he = st.copy(), dict(env0)
    moving = {}
    for d in hooks.phi_names(fr, header):
        nx = [ex.phis(fr, header, o[1], o[2], o[3])[d] for o in backs]
        if isinstance(env0[d], IV):
            if all(ex.decide(o[3], eq(as_u(x), as_u(env0[d]))) is True for o, x in zip(backs, nx)):
                moving[d] = 0
            elif all(ex.decide(o[3], eq(as_u(x), add(as_u(env0[d]), 1))) is True for o, x in zip(backs, nx)):
                moving[d] = 1
                he[d] = U(env0[d].w, add(as_u(env0[d]), sub(n, n0)))
            else:
                return None
        elif any(x != env0[d] for x in nx):
            return None
    hs.add(le(n0, n))
    hs.g['attempts'] = n
    hs.quant(Quant(0, sub(n, seen), high, 'earlier attempts had a high R'))
    for o in backs:
        for r in hooks.changed(ex, st, o[3]):
            hs.mem[r] = merge_any(ex, st.mem[r], o[3].mem[r])
    write_bv(ex, hs, Ptr(sig, 0), keep(SIGK(ival(sub(n, 1)))), 'signature')
    res = []
    for o in hooks.iteration(ex, fr, header, he, hs, False):
        if o[0] != 'back':
            res.append(o)
            continue
        s = o[3]
        tag = '%s loop %s: ' % (fr.f.name, header)
        ex.oblige(s, eq(s.g['attempts'], add(n, 1)), tag + 'one attempt per iteration')
        ex.oblige(s, high(sub(n, seen)), tag + 'only after a high R is there another attempt')
        nx = ex.phis(fr, header, o[1], o[2], s)
        for d, m in moving.items():
            ex.oblige(s, eq(as_u(nx[d]), add(as_u(he[d]), m)), tag + 'loop variable moves with the attempts')
        ex.oblige(s, keep(out_bv(ex, s, sig, 0, 64) == SIGK(ival(n))), tag + 'the output holds the last attempt')
    # entry
    ex.oblige(st, keep(out_bv(ex, st, sig, 0, 64) == SIGK(ival(sub(n0, 1)))), '%s loop %s: the output holds the last attempt on entry' % (fr.f.name, header))
    ex.oblige(st, eq(n0, 1), '%s loop %s: one attempt before' % (fr.f.name, header))
    if not seen:
        ex.oblige(st, high(0), '%s loop %s: the first attempt had a high R' % (fr.f.name, header))
    ex.summarised.add((fr.f.name, header))
    return res


def merge_any(ex, a, b):
    """node a with arbitrary bytes wherever b may differ from it"""
    locs = []
    n = b
    while n is not a:
        if not isinstance(n, Store) or not isc(n.off) or not isc(n.n):
            return ex.byte_base('any')[0]
        locs.append((n.off, n.n))
        n = n.prev
    out = a
    for off, size in locs:
        for i in range(size):
            out = Store(out, off + i, 1, IV(8, 'b', ex.fbv('any', 8)))
    return out


@register
class Sign(Key):
    """the signature of the first attempt with a low R (assumed: fewer than 2^32 attempts)"""
    name = 'fingera_btc_key_sign'

    def args(self, ex, st, c):
        k = self.valid_key(ex, st, c)
        c.hash, c.h = bvin(ex, st, 'hash32', 32)
        c.out = out_buf(ex, st, 'signatures64', 64)
        st.g['attempts'], st.g['sign'], st.g['watch'] = 0, c, watch
        ex.hooks = [grind_loop]
        return [k, Ptr(c.hash, 0), Ptr(c.out, 0)]

    def post(self, ex, st, ret, c):
        n = st.g['attempts']
        S = out_bv(ex, st, c.out, 0, 64)
        ex.oblige(st, le(1, n), 'the library signs')
        ex.oblige(st, keep(S == SIGK(ival(sub(n, 1)))), 'the result is the last attempt')
        ex.oblige(st, keep(low(S)), 'R is below 2^255')
        j = skolem(ex, st, 'earlier', 0, sub(n, 1))
        if j is not None:
            ex.oblige(st, keep(z3.Not(low(SIGK(ival(j))))), 'no earlier attempt had a low R')


@register
class Verify(Key):
    name = 'fingera_btc_key_verify'

    def args(self, ex, st, c):
        p = self.pub_object(ex, st, c)
        c.hash, c.h = bvin(ex, st, 'hash32', 32)
        c.sig, c.s = bvin(ex, st, 'signatures64', 64)
        return [p, Ptr(c.hash, 0), Ptr(c.sig, 0)]

    def post(self, ex, st, ret, c):
        ex.oblige(st, keep(truth(ret) == secp.VERIFY(secp.NORM(c.s), c.h, c.P)), 'accepts exactly what the library accepts for the normalised signature')


@register
class SigEncode(Key):
    name = 'fingera_btc_signature_encode'

    def args(self, ex, st, c):
        c.sig, c.s = bvin(ex, st, 'signatures64', 64)
        c.out = out_buf(ex, st, 'encoded_sig', 72)
        return [Ptr(c.sig, 0), Ptr(c.out, 0)]

    def post(self, ex, st, ret, c):
        r = as_u(ret)
        ex.oblige(st, eq(r, secp.DERLEN(c.s)), 'the length of the DER encoding')
        j = skolem(ex, st, 'j', 0, r)
        ex.oblige(st, keep(bv8(ex, st, c.out, j) == secp.DERC(c.s, ival(j))), 'the DER encoding')


# ---------------------------------------------------------------- C21, C22
def child_hash(ex, st, k, cc, child):
    """I of BIP 32 for a private parent: (state, I) for hardened and normal indices"""
    for hard in (True, False):
        s = st.copy()
        top = z3.Extract(31, 31, child) == 1
        s.add(keep(top if hard else z3.Not(top)))
        if not ex.feasible(s, z3.BoolVal(True)):
            continue
        if hard:
            I = Bip32Hash.spec(ex, s, bv_seq(cc), IV(32, 'b', child), C(8, 0), bv_seq(k))
        else:
            I = pub_hash(ex, s, keep(secp.SER33(secp.PUB(k))), cc, child)
        yield s, I, 'hardened' if hard else 'normal'


def pub_hash(ex, s, e33, cc, child):
    return Bip32Hash.spec(ex, s, bv_seq(cc), IV(32, 'b', child), IV(8, 'b', b8(e33, 0)), bv_seq(sub_bv(e33, 1, 33)))


@register
class KeyDerive(Key):
    name = 'fingera_btc_key_derive'

    def args(self, ex, st, c):
        k = self.valid_key(ex, st, c)
        c.chain, c.cc = bvin(ex, st, 'chain32', 32)
        c.ok = out_buf(ex, st, 'out_key32', 32)
        c.oc = out_buf(ex, st, 'out_chain32', 32)
        c.child = int_param(ex, st, 'child')
        return [k, Ptr(c.chain, 0), Ptr(c.ok, 0), Ptr(c.oc, 0), c.child]

    def post(self, ex, st, ret, c):
        acc = truth(ret)
        for s, I, w in child_hash(ex, st, c.k, c.cc, as_bv(c.child)):
            t = keep(sub_bv(I, 0, 32))
            ex.oblige(s, keep(acc == secp.TWKOK(c.k, t)), 'succeeds exactly when BIP 32 defines the child (%s)' % w)
            s.add(acc)
            if ex.feasible(s, z3.BoolVal(True)):
                same_bytes(ex, s, c.ok, 0, keep(secp.TWK(c.k, t)), 'child key (%s)' % w)
                same_bytes(ex, s, c.oc, 0, keep(sub_bv(I, 32, 64)), 'child chain code (%s)' % w)


def pub_input(ex, st, c, e33):
    """preconditions of public derivation: a 02/03 key and a normal index"""
    h = b8(e33, 0)
    st.add(keep(z3.Or(h == 2, h == 3)))
    st.add(keep(z3.Extract(31, 31, as_bv(c.child)) == 0))


@register
class PubDerive(Key):
    name = 'fingera_btc_pubkey_derive'

    def args(self, ex, st, c):
        c.enc, c.e = bvin(ex, st, 'encoded_pubkey33', 33)
        c.chain, c.cc = bvin(ex, st, 'chain32', 32)
        c.ok = out_buf(ex, st, 'out_pubkey33', 33)
        c.oc = out_buf(ex, st, 'out_chain32', 32)
        c.child = int_param(ex, st, 'child')
        pub_input(ex, st, c, c.e)
        return [Ptr(c.enc, 0), Ptr(c.chain, 0), Ptr(c.ok, 0), Ptr(c.oc, 0), c.child]

    def post(self, ex, st, ret, c):
        acc = truth(ret)
        I = pub_hash(ex, st, c.e, c.cc, as_bv(c.child))
        P, t = secp.PARSE33(c.e), keep(sub_bv(I, 0, 32))
        ex.oblige(st, keep(acc == z3.And(secp.POK33(c.e), secp.TWPOK(P, t))), 'succeeds exactly when BIP 32 defines the child')
        st.add(acc)
        if ex.feasible(st, z3.BoolVal(True)):
            same_bytes(ex, st, c.ok, 0, keep(secp.SER33(secp.TWP(P, t))), 'child key')
            same_bytes(ex, st, c.oc, 0, keep(sub_bv(I, 32, 64)), 'child chain code')


# struct fingera_ex_key / fingera_ex_pubkey (include/fingera_libc/btc/exkey.h)
DEPTH, FP, CHILD, CHAIN, KEY, EXKEY, EXPUB = 0, 4, 8, 12, 44, 76, 80


class ExKey(Key):
    def ext(self, ex, st, c, name, keylen, writable=False):
        """an arbitrary structure"""
        size = EXKEY if keylen == 32 else EXPUB
        rid, f = in_buf(ex, st, name, size)
        B = lambda a, n: keep(concat([f(z3.IntVal(i)) for i in range(a, a + n)]))
        word = lambda a: keep(concat([f(z3.IntVal(a + i)) for i in (3, 2, 1, 0)]))
        o = Ctx()
        o.rid, o.depth, o.fp, o.child, o.cc, o.key = rid, f(z3.IntVal(DEPTH)), word(FP), word(CHILD), B(CHAIN, 32), B(KEY, keylen)
        return o

    def field(self, ex, st, rid, off, n, want, what):
        v = as_bv(ex.load(st, Ptr(rid, off), ir.INT(8 * n)))
        ex.oblige(st, keep(v == want), what)


@register
class ExInit(ExKey):
    name = 'fingera_exkey_init'

    def args(self, ex, st, c):
        c.out = out_buf(ex, st, 'key', EXKEY)
        c.n = size_param(ex, st, 'len', 0, 1 << 60)
        c.seed, c.f = in_buf(ex, st, 'seed', c.n)
        return [Ptr(c.out, 0), Ptr(c.seed, 0), U(64, c.n)]

    def post(self, ex, st, ret, c):
        I = hash_of(ex, st, 'hmac_sha512', 512, const_seq(b'Bitcoin seed'), fn_seq(c.f, c.n))
        self.field(ex, st, c.out, DEPTH, 1, bv(8, 0), 'depth 0')
        self.field(ex, st, c.out, FP, 4, bv(32, 0), 'no parent')
        self.field(ex, st, c.out, CHILD, 4, bv(32, 0), 'child number 0')
        for i in range(32):
            ex.oblige(st, keep(bv8(ex, st, c.out, KEY + i) == b8(I, i)), 'master key byte %d' % i)
            ex.oblige(st, keep(bv8(ex, st, c.out, CHAIN + i) == b8(I, 32 + i)), 'master chain code byte %d' % i)


class Derived(ExKey):
    def derived(self, ex, s, c, key, cc, w):
        self.field(ex, s, c.out, DEPTH, 1, c.x.depth + 1, 'depth one greater (%s)' % w)
        self.field(ex, s, c.out, CHILD, 4, as_bv(c.child), 'child number (%s)' % w)
        self.field(ex, s, c.out, FP, 4, as_bv(c.fp), 'given fingerprint (%s)' % w)
        same_bytes(ex, s, c.out, KEY, key, 'child key (%s)' % w)
        same_bytes(ex, s, c.out, CHAIN, cc, 'child chain code (%s)' % w)


@register
class ExDerive(Derived):
    name = 'fingera_exkey_derive'

    def args(self, ex, st, c):
        c.x = self.ext(ex, st, c, 'key', 32)
        st.add(keep(secp.SKOK(c.x.key)))
        c.out = out_buf(ex, st, 'derived', EXKEY)
        c.child, c.fp = int_param(ex, st, 'child'), int_param(ex, st, 'fingerprint')
        return [Ptr(c.x.rid, 0), Ptr(c.out, 0), c.child, c.fp]

    def post(self, ex, st, ret, c):
        acc = truth(ret)
        for s, I, w in child_hash(ex, st, c.x.key, c.x.cc, as_bv(c.child)):
            t = keep(sub_bv(I, 0, 32))
            ex.oblige(s, keep(acc == z3.And(c.x.depth != 255, secp.TWKOK(c.x.key, t))), 'succeeds exactly below depth 255 when BIP 32 defines the child (%s)' % w)
            s.add(acc)
            if ex.feasible(s, z3.BoolVal(True)):
                self.derived(ex, s, c, keep(secp.TWK(c.x.key, t)), keep(sub_bv(I, 32, 64)), w)


@register
class ExPubDerive(Derived):
    name = 'fingera_expubkey_derive'

    def args(self, ex, st, c):
        c.x = self.ext(ex, st, c, 'pubkey', 33)
        c.out = out_buf(ex, st, 'derived', EXPUB)
        c.child, c.fp = int_param(ex, st, 'child'), int_param(ex, st, 'fingerprint')
        pub_input(ex, st, c, c.x.key)
        return [Ptr(c.x.rid, 0), Ptr(c.out, 0), c.child, c.fp]

    def post(self, ex, st, ret, c):
        acc = truth(ret)
        I = pub_hash(ex, st, c.x.key, c.x.cc, as_bv(c.child))
        P, t = secp.PARSE33(c.x.key), keep(sub_bv(I, 0, 32))
        ex.oblige(st, keep(acc == z3.And(c.x.depth != 255, secp.POK33(c.x.key), secp.TWPOK(P, t))),
                  'succeeds exactly below depth 255 when BIP 32 defines the child')
        st.add(acc)
        if ex.feasible(st, z3.BoolVal(True)):
            self.derived(ex, st, c, keep(secp.SER33(secp.TWP(P, t))), keep(sub_bv(I, 32, 64)), 'public')


@register
class ExGetPub(ExKey):
    name = 'fingera_exkey_get_pub'

    def args(self, ex, st, c):
        c.x = self.ext(ex, st, c, 'key', 32)
        st.add(keep(secp.SKOK(c.x.key)))
        c.out = out_buf(ex, st, 'pubkey', EXPUB)
        return [Ptr(c.x.rid, 0), Ptr(c.out, 0)]

    def post(self, ex, st, ret, c):
        x = c.x
        self.field(ex, st, c.out, DEPTH, 1, x.depth, 'depth')
        self.field(ex, st, c.out, CHILD, 4, x.child, 'child number')
        self.field(ex, st, c.out, FP, 4, x.fp, 'fingerprint')
        same_bytes(ex, st, c.out, CHAIN, x.cc, 'chain code')
        same_bytes(ex, st, c.out, KEY, keep(secp.SER33(secp.PUB(x.key))), 'the compressed public key of the key')


# ---------------------------------------------------------------- C23 (binary form)
def layout(x, pub):
    """the 74 bytes of an extended key as (field term, byte of it)"""
    out = [x.depth]
    out += [extract(8 * i + 7, 8 * i, x.fp) for i in range(4)]          # the fingerprint in memory order
    out += [b8(x.child, i) for i in range(4)]
    out += [b8(x.cc, i) for i in range(32)]
    out += ([] if pub else [bv(8, 0)]) + [b8(x.key, i) for i in range(33 if pub else 32)]
    return out


class ExEncode(ExKey):
    uses = ()
    pubk = False

    def args(self, ex, st, c):
        c.x = self.ext(ex, st, c, 'key', 33 if self.pubk else 32)
        c.out = out_buf(ex, st, 'extkey74', 74)
        return [Ptr(c.x.rid, 0), Ptr(c.out, 0)]

    def post(self, ex, st, ret, c):
        for i, b in enumerate(layout(c.x, self.pubk)):
            ex.oblige(st, keep(bv8(ex, st, c.out, i) == b), 'byte %d of the BIP 32 layout' % i)


@register
class ExKeyEncode(ExEncode):
    name, pubk = 'fingera_exkey_encode', False


@register
class ExPubEncode(ExEncode):
    name, pubk = 'fingera_expubkey_encode', True


class ExDecode(ExKey):
    uses = ()
    pubk = False

    def args(self, ex, st, c):
        c.enc, c.e = bvin(ex, st, 'extkey74', 74)
        c.out = out_buf(ex, st, 'key', EXPUB if self.pubk else EXKEY)
        return [Ptr(c.enc, 0), Ptr(c.out, 0)]

    def post(self, ex, st, ret, c):
        check_struct(self, ex, st, c.out, c.e, self.pubk)


def check_struct(self, ex, st, rid, e, pub):
    word = lambda a, o: keep(z3.Concat(*[b8(e, a + i) for i in o]))
    self.field(ex, st, rid, DEPTH, 1, b8(e, 0), 'depth')
    self.field(ex, st, rid, FP, 4, word(1, (3, 2, 1, 0)), 'fingerprint')
    self.field(ex, st, rid, CHILD, 4, word(5, (0, 1, 2, 3)), 'big-endian child number')
    same_bytes(ex, st, rid, CHAIN, keep(sub_bv(e, 9, 41)), 'chain code')
    same_bytes(ex, st, rid, KEY, keep(sub_bv(e, 41 if pub else 42, 74)), 'key')


@register
class ExKeyDecode(ExDecode):
    name, pubk = 'fingera_exkey_decode', False


@register
class ExPubDecode(ExDecode):
    name, pubk = 'fingera_expubkey_decode', True


# ---------------------------------------------------------------- C19
class Lax:
    """the tolerant format as a parser over the input, run by the specification beside every path of the code"""
    def __init__(self, ex, f, n):
        self.ex, self.f, self.n = ex, f, n

    def at(self, s, i):
        e = keep(self.f(ival(i)))
        bound(e, 0, 255)
        s.add(keep(z3.And(e >= 0, e <= 255)))
        return e

    def split(self, s, cond):
        for b, cnd in ((True, cond), (False, Not(cond))):
            if cnd is False:
                continue
            if cnd is True:
                yield b, s
                continue
            s2 = s.copy()
            s2.add(cnd)
            if self.ex.feasible(s2, z3.BoolVal(True)):
                yield b, s2

    def zeros(self, s, p, n):
        """the number of leading zero bytes among the n bytes at p"""
        z = self.ex.newint(s, 'zeros', 0, None)
        s.add(le(z, n))
        s.quant(Quant(0, z, lambda j: eq(self.at(s, add(p, j)), 0), 'leading zeros'))
        s.add(Or(eq(z, n), Not(eq(self.at(s, add(p, z)), 0))))
        s.term(z)
        return z

    def expect(self, s, pos, tag):
        """tag at pos, then a byte: yields (state, position after the tag) or None"""
        for ok, s1 in self.split(s, lt(pos, self.n)):
            if not ok:
                yield s1, None
                continue
            for ok, s2 in self.split(s1, eq(self.at(s1, pos), tag)):
                if not ok:
                    yield s2, None
                    continue
                for ok, s3 in self.split(s2, lt(add(pos, 1), self.n)):
                    yield s3, (add(pos, 1) if ok else None)

    def integer(self, s, pos):
        """yields (state, (start, length)) or None"""
        for s, pos in self.expect(s, pos, 2):
            if pos is None:
                yield s, None
                continue
            L = self.at(s, pos)
            p = add(pos, 1)
            for short, s1 in self.split(s, lt(L, 128)):
                if short:
                    yield from self.value(s1, p, L)
                    continue
                m = sub(L, 128)
                for ok, s2 in self.split(s1, le(add(p, m), self.n)):
                    if not ok:
                        yield s2, None
                        continue
                    z = self.zeros(s2, p, m)
                    rest = sub(m, z)
                    for ok, s3 in self.split(s2, lt(rest, 4)):
                        if not ok:
                            yield s3, None
                            continue
                        for r in range(4):
                            for yes, s4 in self.split(s3, eq(rest, r)):
                                if yes:
                                    v = 0
                                    for i in range(r):
                                        v = add(mul(v, 256), self.at(s4, add(add(p, z), i)))
                                    yield from self.value(s4, add(p, m), v)

    def value(self, s, p, n):
        p, n = named(self.ex, s, p), named(self.ex, s, n)
        for ok, s1 in self.split(s, le(add(p, n), self.n)):
            yield s1, ((p, n) if ok else None)

    def parse(self, s):
        for s, pos in self.expect(s, 0, 0x30):
            if pos is None:
                yield s, None
                continue
            L = self.at(s, pos)
            for short, s1 in self.split(s, lt(L, 128)):
                starts = [(s1, 2)] if short else []
                if not short:
                    for ok, s2 in self.split(s1, le(add(2, sub(L, 128)), self.n)):
                        if ok:
                            starts.append((s2, add(2, sub(L, 128))))
                        else:
                            yield s2, None
                for s2, pos2 in starts:
                    for s3, R in self.integer(s2, pos2):
                        if R is None:
                            yield s3, None
                            continue
                        for s4, S in self.integer(s3, add(R[0], R[1])):
                            yield s4, (None if S is None else (R, S))

    def big(self, s, p, n):
        """is the number of the n bytes at p 2^256 or more?  yields (answer, state)"""
        z = self.zeros(s, p, n)
        yield from self.split(s, lt(32, sub(n, z)))

    def byte(self, s, p, n, j):
        """byte j of the 32-byte number"""
        i = sub(add(n, j), 32)
        return If(le(0, i), self.at(s, add(p, i)), 0)


class LaxCut:
    """what the specification knows once both integers have been found"""
    def __init__(self, X):
        self.X = X

    def __call__(self, ex, st):
        if 'ghosts' in st.g:
            return None
        res = list(self.X.parse(st.copy()))
        if not res or any(r is None for s, r in res):
            return None
        return [(s, dict(rp=r[0], rn=r[1], sp=q[0], sn=q[1])) for s, (r, q) in res]

    def ghosts(self, ex, st):
        g = {x: ex.newint(st, x, 0, 1 << 61) for x in ('rp', 'rn', 'sp', 'sn')}
        for fct in self.facts(g):
            st.add(fct)
        return g

    def facts(self, g):
        return [le(0, g['rp']), le(0, g['rn']), le(0, g['sn']), le(add(g['rp'], g['rn']), g['sp']), le(add(g['sp'], g['sn']), self.X.n)]

    def check(self, ex, s, g):
        for fct in self.facts(g):
            ex.oblige(s, fct, 'the numbers lie inside the input')


class SigDecode(Key):
    """the tolerant DER format"""
    func = 'fingera_btc_signature_decode'
    intmode = True
    seq_long = r_long = s_long = None
    cost = 30

    def args(self, ex, st, c):
        ex.name_terms = True
        c.n = size_param(ex, st, 'encoded_sig_len', 0, 1 << 61)
        c.enc, c.f = in_buf(ex, st, 'encoded_sig', c.n)
        c.out = out_buf(ex, st, 'signatures64', 64)
        X = c.X = Lax(ex, c.f, c.n)
        L = X.at(st, 1)
        q = And(lt(1, c.n), le(128, L))
        st.add(q if self.seq_long else Not(q))
        pos = sub(L, 126) if self.seq_long else 2
        q = And(lt(add(pos, 1), c.n), le(128, X.at(st, add(pos, 1))))
        st.add(q if self.r_long else Not(q))
        ex.hooks = [hooks.cut(LaxCut(X), st.copy())]
        return [Ptr(c.enc, 0), U(64, c.n), Ptr(c.out, 0)]

    def post(self, ex, st, ret, c):
        X = c.X
        acc = truth(ret)
        G = st.g.get('ghosts')
        for s, res in [(st, ((G['rp'], G['rn']), (G['sp'], G['sn'])))] if G else X.parse(st):
            if res is None:
                ex.oblige(s, keep(z3.Not(acc)), 'everything else is refused')
                continue
            ex.oblige(s, acc, 'texts of the tolerant format are accepted')
            (rp, rn), (sp, sn) = res
            for b1, s1 in X.big(s, rp, rn):
                for b2, s2 in X.big(s1, sp, sn):
                    out = out_bv(ex, s2, c.out, 0, 64)
                    zero = secp.CP(bv(512, 0))
                    if b1 or b2:
                        ex.oblige(s2, keep(out == zero), 'a number of 2^256 or more gives the invalid zero signature')
                        continue
                    calls = [x for x in s2.g.get('compact_in', ()) if x[3]] or s2.g.get('compact_in')
                    if not calls:
                        ex.oblige(s2, False, 'the numbers are handed to the curve library')
                        continue
                    node, off, b, _ = calls[0]
                    for k, (p, n, w) in enumerate(((rp, rn, 'R'), (sp, sn, 'S'))):
                        s3 = s2.copy()
                        j = skolem(ex, s3, 'j', 0, 32)
                        got = ex.read8(s3, node, add(off, add(32 * k, j)))
                        want = X.byte(s3, p, n, j)
                        s3.term(sub(add(n, j), 32))
                        ex.oblige(s3, eq(as_u(got), want), 'the number %s, most significant byte first' % w)
                    ex.oblige(s2, keep(out == z3.If(secp.CPOK(b), secp.CP(b), zero)),
                              'the signature of the two numbers, or the invalid zero signature when the library refuses them')


for _a in (False, True):
    for _b in (False, True):
        register(type('SigDecode', (SigDecode,), dict(name='fingera_btc_signature_decode [%s sequence length; %s length of R]' % (
            'long' if _a else 'short', 'long' if _b else 'short'), seq_long=_a, r_long=_b)))
