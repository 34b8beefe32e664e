"""Contracts of hash/{sha1,sha2,ripemd160}.c and btc/hash.c against FIPS 180-4, RIPEMD-160, RFC 2104 (vc/hashspec.py)."""
from .contract import *
from . import ir, hashspec
from .seq import *

W32, W64 = z3.BitVecSort(256), z3.BitVecSort(512)


class Algo:
    def __init__(self, name, words, wbytes, block, lenb, order, iv, comp, out):
        self.name, self.words, self.wb, self.block, self.lenb, self.order, self.iv, self.comp, self.out = \
            name, words, wbytes, block, lenb, order, iv, comp, out
        self.bits = words * wbytes * 8
        self.C = z3.Function('C_' + name, z3.BitVecSort(self.bits), z3.BitVecSort(8 * block), z3.BitVecSort(self.bits))
        self.IV = z3.BitVecVal(int(''.join('%0*x' % (2 * wbytes, h) for h in iv), 16), self.bits)

    def words_of(self, t):
        w = 8 * self.wb
        n = self.words
        return [extract(w * (n - i) - 1, w * (n - i - 1), t) for i in range(n)]

    def load_state(self, ex, st, p):
        ws = [as_bv(ex.load(st, Ptr(p.r, add(p.off, i * self.wb)), ir.INT(8 * self.wb), 'hash state')) for i in range(self.words)]
        return concat(ws)

    def store_state(self, ex, st, p, t):
        for i, w in enumerate(self.words_of(t)):
            ex.store(st, Ptr(p.r, add(p.off, i * self.wb)), BV(8 * self.wb, w), self.wb, 'hash state')

    def block_words(self, bs):
        """message words from block bytes (standard byte order)"""
        out = []
        for i in range(0, self.block, self.wb):
            x = bs[i:i + self.wb]
            out.append(z3.Concat(x if self.order == 'big' else x[::-1]))
        return out

    def digest_bytes(self, t):
        """output bytes of a final state"""
        out = []
        for w in self.words_of(t):
            bs = [extract(8 * j + 7, 8 * j, w) for j in range(self.wb)]
            out += bs[::-1] if self.order == 'big' else bs
        return out

    def digest(self, t):
        return concat(self.digest_bytes(t))

    def final_blocks(self, ex, st, seq, n, r, small, extra=0):
        """padded last block(s) of a message whose n full blocks have been absorbed, r bytes remain; total length + extra"""
        B = self.block
        bitlen = mul(add(seq.n, extra), 8)
        lb = []
        b64 = [U(8, imod(idiv(bitlen, 1 << (8 * j)), 256)) for j in range(8)]
        if self.order == 'big':
            lb = [C(8, 0)] * (self.lenb - 8) + b64[::-1]
        else:
            lb = b64 + [C(8, 0)] * (self.lenb - 8)

        def tail(i):
            c = lt(i, r)
            m = seq.fn(st, add(mul(n, B), i)) if c is not False else None
            p = C(8, 0x80) if eq(r, i) is True else ex.ite8(eq(r, i), C(8, 0x80), C(8, 0))
            return p if m is None else m if c is True else ex.ite8(c, m, p)
        t = [as_bv(tail(i)) for i in range(B)]
        L = [as_bv(x) for x in lb]
        if small:
            return [t[:B - self.lenb] + L]
        return [t, [z3.BitVecVal(0, 8)] * (B - self.lenb) + L]

    def absorb(self, T, blocks):
        for b in blocks:
            T = keep(self.C(T, concat(b)))
        return T


SHA1 = Algo('sha1', 5, 4, 64, 8, 'big', hashspec.H160, hashspec.sha1, 20)
RMD = Algo('ripemd160', 5, 4, 64, 8, 'little', hashspec.H160, hashspec.ripemd160, 20)
SHA256 = Algo('sha256', 8, 4, 64, 8, 'big', hashspec.H256, hashspec.sha256, 32)
SHA512 = Algo('sha512', 8, 8, 128, 16, 'big', hashspec.H512, hashspec.sha512, 64)


class BlockFold:
    """state after j blocks of the message, started from S0:  F(S0,0)=S0, F(S0,j+1)=C(F(S0,j), block j)"""
    kind = 'mem'

    def __init__(self, algo, seq, name='msg'):
        self.a, self.seq, self.name = algo, seq, 'blocks of ' + name
        self.F = z3.Function('F_%s_%s!%d' % (algo.name, name, fresh_id()), z3.BitVecSort(algo.bits), z3.IntSort(), z3.BitVecSort(algo.bits))

    def instance(self, ex, st, r, lo, hi):
        a = self.a
        if hi - lo != a.words * a.wb:
            return None
        try:
            S0 = a.load_state(ex, st, Ptr(r, lo))
        except Exception:
            return None
        i = FoldInst()
        i.base, i.name = 0, self.name
        F, seq = self.F, self.seq

        def value(s, idx):
            e = keep(F(S0, ival(idx)))
            if isc(idx) and idx == 0:
                return S0
            s.add(keep(F(S0, z3.IntVal(0)) == S0))
            return e

        def block(s, idx):
            return concat([as_bv(seq.fn(s, add(mul(idx, a.block), j))) for j in range(a.block)])

        i.unfold = lambda ex, s, idx: s.add(keep(F(S0, ival(add(idx, 1))) == a.C(value(s, idx), block(s, idx))))
        i.equals = lambda ex, s, r, idx: keep(a.load_state(ex, s, Ptr(r, lo)) == value(s, idx))
        i.write = lambda ex, s, r, idx: a.store_state(ex, s, Ptr(r, lo), value(s, idx))
        return i


class FoldInst:
    pass


class Transform(Contract):
    """one compression step: s := C(s, chunk) where C is the standard's compression function"""
    anf = True
    algo = None

    def setup(self, ex, st):
        c = Ctx()
        a = self.algo
        b, f = ex.byte_base('s')
        c.s = ex.region(st, 's', a.words * a.wb, 'heap', writable=True, content=b)
        c.state = [keep(z3.BitVec('s%d!%d' % (i, fresh_id()), 8 * a.wb)) for i in range(a.words)]
        for i, w in enumerate(c.state):
            ex.store(st, Ptr(c.s, i * a.wb), BV(8 * a.wb, w), a.wb, 'set-up')
        ex.inputs += [('s%d' % i, 'bv', w) for i, w in enumerate(c.state)]
        c.chunk, c.f = in_buf(ex, st, 'chunk', a.block)
        return [Ptr(c.s, 0), Ptr(c.chunk, 0)], c

    def post(self, ex, st, ret, c):
        a = self.algo
        ws = a.block_words([c.f(z3.IntVal(i)) for i in range(a.block)])
        for i, x in enumerate(a.comp(c.state, ws)):
            y = as_bv(ex.load(st, Ptr(c.s, i * a.wb), ir.INT(8 * a.wb)))
            ex.oblige(st, keep(y == x), 'word %d is that of the %s compression function' % (i, a.name))

    def call(self, ex, st, v):
        a = self.algo
        ex.rw_ok(st, v[0], a.words * a.wb, 'state of ' + self.name, True)
        ex.rw_ok(st, v[1], a.block, 'chunk of ' + self.name, False)
        if v[0].r == v[1].r:
            raise Unsupported('overlapping state and chunk')
        S0 = a.load_state(ex, st, v[0])
        B = read_bv(ex, st, v[1], a.block)
        a.store_state(ex, st, v[0], keep(a.C(S0, B)))
        return [(st, None)]


@register
class Sha256Transform(Transform):
    name, algo = 'sha256_transform', SHA256


@register
class Sha512Transform(Transform):
    name, algo = 'sha512_transform', SHA512


@register
class Sha1Transform(Transform):
    name, algo = 'sha1_transform', SHA1


@register
class RmdTransform(Transform):
    name, algo = 'ripemd160_transform', RMD


D64 = z3.Function('D64', z3.BitVecSort(512), z3.BitVecSort(256))


@register
class D64Transform(Contract):
    """out = SHA-256(SHA-256(in)) for a 64-byte block"""
    name = '_hash256_d64_transform'
    anf = True

    def setup(self, ex, st):
        c = Ctx()
        c.chunk, c.f = in_buf(ex, st, 'in', 64)
        c.out = out_buf(ex, st, 'out', 32)
        return [Ptr(c.out, 0), Ptr(c.chunk, 0)], c

    def post(self, ex, st, ret, c):
        k = lambda v: z3.BitVecVal(v, 32)
        iv = [k(h) for h in hashspec.H256]
        ws = SHA256.block_words([c.f(z3.IntVal(i)) for i in range(64)])
        s = hashspec.sha256(iv, ws)
        s = hashspec.sha256(s, [k(0x80000000)] + [k(0)] * 14 + [k(512)])
        t = hashspec.sha256(iv, s + [k(0x80000000)] + [k(0)] * 6 + [k(256)])
        for i, x in enumerate(t):
            y = as_bv(ex.load(st, Ptr(c.out, i * 4), ir.INT(32)))
            bs = [z3.Extract(8 * j + 7, 8 * j, x) for j in range(4)]
            ex.oblige(st, keep(y == z3.Concat(bs)), 'word %d of the double SHA-256 of the block' % i)

    def call(self, ex, st, v):
        ex.rw_ok(st, v[1], 64, 'block of ' + self.name, False)
        t = keep(D64(read_bv(ex, st, v[1], 64)))
        write_bv(ex, st, v[0], t, 'result of ' + self.name)
        return [(st, None)]


class Hash(Contract):
    """hash = H(msg) for every message below 2^61 bytes"""
    algo = None

    def setup(self, ex, st):
        c = Ctx()
        a = self.algo
        c.n = size_param(ex, st, 'msg_len', 0, (1 << 61) - 1)
        c.msg, c.f = in_buf(ex, st, 'msg', c.n)
        c.out = out_buf(ex, st, 'hash', a.out)
        c.seq = fn_seq(c.f, c.n)
        c.fold = BlockFold(a, c.seq)
        ex.folds = [c.fold]
        return [Ptr(c.msg, 0), U(64, c.n), Ptr(c.out, 0)], c

    def post(self, ex, st, ret, c):
        a = self.algo
        check_hash(ex, st, a, c.fold, a.IV, c.seq, 0, lambda s, i: bv8(ex, s, c.out, i), a.name)

    def call(self, ex, st, v):
        a = self.algo
        n = as_u(v[1])
        ex.rw_ok(st, v[0], n, 'message of ' + self.name, False)
        ex.oblige(st, lt(n, 1 << 61), 'message length of ' + self.name)
        D = hash_of(ex, st, a.name, 8 * a.out, mem_seq(ex, st, v[0], n))
        write_bv(ex, st, v[2], D, 'result of ' + self.name)
        return [(st, None)]


def split_len(ex, st, L, B):
    """L = B n + r"""
    n = ex.newint(st, 'blocks', 0, None)
    r = sub(L, mul(n, B))
    st.add(le(0, r))
    st.add(lt(r, B))
    rr = ex.newint(st, 'rest', 0, B - 1)
    st.add(eq(rr, r))
    return n, rr


def finals(ex, st, a, fold, S0, seq, extra):
    """(state, final chaining value) for the two padding cases"""
    n, r = split_len(ex, st, seq.n, a.block)
    out = []
    for small in (True, False):
        s = st.copy()
        c = le(r, a.block - a.lenb - 1)
        s.add(c if small else Not(c))
        if not ex.feasible(s, z3.BoolVal(True)):
            continue
        s.add(keep(fold.F(S0, z3.IntVal(0)) == S0))
        T = keep(fold.F(S0, n))
        out.append((s, a.absorb(T, a.final_blocks(ex, s, seq, n, r, small, extra)), 'short' if small else 'long'))
    return out


def check_hash(ex, st, a, fold, S0, seq, extra, out, what):
    for s, D, case in finals(ex, st, a, fold, S0, seq, extra):
        bs = a.digest_bytes(D)
        for i, b in enumerate(bs):
            ex.oblige(s, keep(out(s, i) == b), '%s: digest byte %d (%s tail)' % (what, i, case), share=(what, case))


@register
class FSha1(Hash):
    name, algo, uses = 'fingera_sha1', SHA1, ('sha1_transform',)


@register
class FRmd(Hash):
    name, algo, uses = 'fingera_ripemd160', RMD, ('ripemd160_transform',)


@register
class FSha256(Hash):
    name, algo, uses = 'fingera_sha2_256', SHA256, ('sha256_transform',)


@register
class FSha512(Hash):
    name, algo, uses = 'fingera_sha2_512', SHA512, ('sha512_transform',)


class Hmac(Contract):
    """hmac = HMAC_H(key, msg) (RFC 2104) for every key and message (message plus one block below 2^61 bytes)"""
    algo = None

    def setup(self, ex, st):
        c = Ctx()
        a = self.algo
        c.kn = size_param(ex, st, 'key_len', 0, (1 << 61) - 1)
        c.key, c.kf = in_buf(ex, st, 'key', c.kn)
        c.n = size_param(ex, st, 'msg_len', 0, (1 << 61) - 1 - a.block)
        c.msg, c.f = in_buf(ex, st, 'msg', c.n)
        c.out = out_buf(ex, st, 'hmac', a.out)
        c.seq = fn_seq(c.f, c.n)
        c.fold = BlockFold(a, c.seq)
        ex.folds = [c.fold]
        return [Ptr(c.key, 0), U(64, c.kn), Ptr(c.msg, 0), U(64, c.n), Ptr(c.out, 0)], c

    def post(self, ex, st, ret, c):
        a = self.algo
        B = a.block
        for short in (True, False):
            s = st.copy()
            k = le(c.kn, B)
            s.add(k if short else Not(k))
            if not ex.feasible(s, z3.BoolVal(True)):
                continue
            kseq = fn_seq(c.kf, c.kn)
            if short:
                K0 = [ex.ite8(lt(i, c.kn), kseq.fn(s, i), C(8, 0)) for i in range(B)]
            else:
                D = hash_of(ex, s, a.name, 8 * a.out, kseq)
                K0 = [BV(8, extract(8 * (a.out - i) - 1, 8 * (a.out - i) - 8, D)) if i < a.out else C(8, 0) for i in range(B)]
            K0 = [as_bv(b) for b in K0]
            ipad = [keep(b ^ z3.BitVecVal(0x36, 8)) for b in K0]
            opad = [keep(b ^ z3.BitVecVal(0x5c, 8)) for b in K0]
            SI = keep(a.C(a.IV, concat(ipad)))
            SO = keep(a.C(a.IV, concat(opad)))
            for s2, DI, case in finals(ex, s, a, c.fold, SI, c.seq, B):
                inner = a.digest_bytes(DI)
                tail = inner + [z3.BitVecVal(0x80, 8)] + [z3.BitVecVal(0, 8)] * (B - a.out - 1 - 8) + \
                    [z3.BitVecVal(x, 8) for x in (8 * (B + a.out)).to_bytes(8, 'big')]
                DO = a.absorb(SO, [tail])
                for i, b in enumerate(a.digest_bytes(DO)):
                    ex.oblige(s2, keep(bv8(ex, s2, c.out, i) == b), 'hmac-%s: byte %d (%s key, %s tail)' % (
                        a.name, i, 'short' if short else 'long', case))

    def call(self, ex, st, v):
        a = self.algo
        kn, n = as_u(v[1]), as_u(v[3])
        ex.rw_ok(st, v[0], kn, 'key of ' + self.name, False)
        ex.rw_ok(st, v[2], n, 'message of ' + self.name, False)
        ex.oblige(st, And(lt(kn, 1 << 61), lt(n, (1 << 61) - a.block)), 'lengths of ' + self.name)
        D = hash_of(ex, st, 'hmac_' + a.name, 8 * a.out, mem_seq(ex, st, v[0], kn), mem_seq(ex, st, v[2], n))
        write_bv(ex, st, v[4], D, 'result of ' + self.name)
        return [(st, None)]


@register
class Hmac256(Hmac):
    name, algo, uses = 'fingera_hmac_sha256', SHA256, ('sha256_transform', 'fingera_sha2_256')


@register
class Hmac512(Hmac):
    name, algo, uses = 'fingera_hmac_sha512', SHA512, ('sha512_transform', 'fingera_sha2_512')


class Compose(Contract):
    """hash = G(SHA-256(msg))"""
    outer, outn = None, 0

    def setup(self, ex, st):
        c = Ctx()
        c.n = size_param(ex, st, 'msg_len', 0, (1 << 61) - 1)
        c.msg, c.f = in_buf(ex, st, 'msg', c.n)
        c.out = out_buf(ex, st, 'hash', self.outn)
        return [Ptr(c.msg, 0), U(64, c.n), Ptr(c.out, 0)], c

    def spec(self, ex, st, seq):
        D = hash_of(ex, st, 'sha256', 256, seq)
        return hash_of(ex, st, self.outer, 8 * self.outn, bv_seq(D))

    def post(self, ex, st, ret, c):
        D = self.spec(ex, st, fn_seq(c.f, c.n))
        for i in range(self.outn):
            n = self.outn
            ex.oblige(st, keep(bv8(ex, st, c.out, i) == extract(8 * (n - i) - 1, 8 * (n - i) - 8, D)), 'byte %d is that of %s(SHA-256(msg))' % (i, self.outer))

    def call(self, ex, st, v):
        n = as_u(v[1])
        ex.rw_ok(st, v[0], n, 'message of ' + self.name, False)
        ex.oblige(st, lt(n, 1 << 61), 'message length of ' + self.name)
        write_bv(ex, st, v[2], self.spec(ex, st, mem_seq(ex, st, v[0], n)), 'result of ' + self.name)
        return [(st, None)]


@register
class Hash160(Compose):
    name, outer, outn, uses = 'fingera_btc_hash160', 'ripemd160', 20, ('fingera_sha2_256', 'fingera_ripemd160')


@register
class Hash256(Compose):
    name, outer, outn, uses = 'fingera_btc_hash256', 'sha256', 32, ('fingera_sha2_256',)


@register
class HashD64(Contract):
    """out[32k..] = SHA-256(SHA-256(in[64k..])) for every block"""
    name = 'fingera_btc_hash256_d64'
    uses = ('_hash256_d64_transform',)

    def setup(self, ex, st):
        c = Ctx()
        c.n = size_param(ex, st, 'blocks', 0, 1 << 40)
        c.inp, c.f = in_buf(ex, st, 'in', mul(c.n, 64))
        c.out = out_buf(ex, st, 'out', mul(c.n, 32))
        return [Ptr(c.out, 0), Ptr(c.inp, 0), U(64, c.n)], c

    def post(self, ex, st, ret, c):
        k = skolem(ex, st, 'block', 0, c.n)
        if k is None:
            return
        ex.index_terms(st, [mul(k, 32)]) if hasattr(ex, 'index_terms') else None
        D = keep(D64(concat([c.f(ival(add(mul(k, 64), j))) for j in range(64)])))
        for i in range(32):
            ex.oblige(st, keep(bv8(ex, st, c.out, add(mul(k, 32), i)) == extract(8 * (32 - i) - 1, 8 * (32 - i) - 8, D)),
                      'byte %d of the digest of block k' % i)


@register
class Bip32Hash(Contract):
    """out64 = HMAC-SHA512(chain_code, header || data32 || big-endian child)"""
    name = 'fingera_btc_bip32_hash'
    uses = ('fingera_hmac_sha512',)

    def setup(self, ex, st):
        c = Ctx()
        c.cc, c.ccf = in_buf(ex, st, 'chain_code', 32)
        c.child = int_param(ex, st, 'child', 32)
        c.header = int_param(ex, st, 'header', 8)
        c.data, c.df = in_buf(ex, st, 'data32', 32)
        c.out = out_buf(ex, st, 'out64', 64)
        return [Ptr(c.cc, 0), c.child, c.header, Ptr(c.data, 0), Ptr(c.out, 0)], c

    @staticmethod
    def spec(ex, st, cc, child, header, data):
        ch = as_bv(child)
        m = cat_seq(Seq(lambda s, i: header, 1), data,
                    Seq(lambda s, i: BV(8, extract(31 - 8 * i, 24 - 8 * i, ch)), 4))
        return hash_of(ex, st, 'hmac_sha512', 512, cc, m)

    def post(self, ex, st, ret, c):
        D = self.spec(ex, st, fn_seq(c.ccf, 32), c.child, c.header, fn_seq(c.df, 32))
        for i in range(64):
            ex.oblige(st, keep(bv8(ex, st, c.out, i) == extract(511 - 8 * i, 504 - 8 * i, D)), 'byte %d of the HMAC-SHA512' % i)

    def call(self, ex, st, v):
        ex.rw_ok(st, v[0], 32, 'chain code', False)
        ex.rw_ok(st, v[3], 32, 'data', False)
        D = self.spec(ex, st, mem_seq(ex, st, v[0], 32), v[1], v[2], mem_seq(ex, st, v[3], 32))
        write_bv(ex, st, v[4], D, 'result of ' + self.name)
        return [(st, None)]
