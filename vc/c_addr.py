"""Contracts of btc/address.c over those of Base58Check, base32 and bech32."""
from .contract import *
from . import ir
from .seq import *
from .c_text import params
from .c_b58c import cap58, MAXIN
from .c_bech32 import Bech, BOK, BHRP, BDATA, bech_facts
from .c_base import enc_len, dec_len, ALPHA
HRP = 16      # longest human-readable part the decoder has room for
BAD, PUBKEY, SCRIPT, KEYHASH, SCRIPTHASH, UNKNOWN = range(6)


def bv(w, v):
    return z3.BitVecVal(v, w)


class Encoder(Contract):
    field = ''

    def out(self, ex, st, c):
        c.cap = size_param(ex, st, 'out_size', 0, 1 << 40)
        c.out = out_buf(ex, st, 'out', c.cap)
        c.before = st.mem[c.out]

    def result(self, ex, st, ret, c, D, L, need, legal, spare=0):
        """either refused without writing, or the text D of L characters; a legal payload with room for `need` is not refused"""
        r = as_u(ret)
        s = st.copy()
        s.add(eq(r, 0))
        if ex.feasible(s, z3.BoolVal(True)):
            ex.oblige(s, Not(And(legal, le(need, c.cap))), 'not refused when the announced size fits and the payload is legal')
            j = skolem(ex, s, 'j', 0, c.cap)
            if j is not None:
                ex.oblige(s, keep(bv8(ex, s, c.out, j) == as_bv(ex.read8(s, c.before, j))), 'nothing is written on refusal')
        s = st.copy()
        s.add(Not(eq(r, 0)))
        if not ex.feasible(s, z3.BoolVal(True)):
            return
        ex.oblige(s, legal, 'an illegal payload is refused')
        s.add(legal)
        if D is None or not ex.feasible(s, z3.BoolVal(True)):
            return
        ex.oblige(s, eq(r, L), 'the number of characters')
        ex.oblige(s, le(L, c.cap), 'the text fits')
        j = skolem(ex, s, 'j', 0, L)
        if j is not None:
            ex.oblige(s, keep(bv8(ex, s, c.out, j) == CHR(D, ival(j))), 'the address text')


class Base58Address(Encoder):
    uses = ('fingera_to_base58_check',)

    def setup(self, ex, st):
        c = Ctx()
        c.n = size_param(ex, st, 'id_size', 0, MAXIN // 2)
        c.id, c.f = in_buf(ex, st, 'id', c.n)
        self.out(ex, st, c)
        c.par, pre = params(ex, st, [self.field])
        c.g, c.p = pre[self.field]
        return [Ptr(c.id, 0), U(64, c.n), Ptr(c.out, 0), U(64, c.cap), Ptr(c.par, 0)], c

    def post(self, ex, st, ret, c):
        D = hash_of(ex, st, 'base58check', String, cat_seq(fn_seq(c.g, c.p), fn_seq(c.f, c.n)))
        self.result(ex, st, ret, c, D, keep(LEN(D)), cap58(add(add(c.n, c.p), 4)), True)


@register
class ToPubkey(Base58Address):
    name, field = 'fingera_to_address_pubkey', 'prefix_pubkey_address'


@register
class ToScript(Base58Address):
    name, field = 'fingera_to_address_script', 'prefix_script_address'


class Witness(Encoder):
    uses = ('fingera_bech32_encode', 'fingera_to_base32_raw')
    size = None
    other = False

    def setup(self, ex, st):
        c = Ctx()
        if self.size and not self.other:
            c.n = self.size
        else:
            c.n = size_param(ex, st, 'size', 0, 1 << 40)
        c.id, c.f = in_buf(ex, st, 'payload', c.n)
        if self.other:
            # a build without assertions returns 0; a build with them stops
            st.add(Not(eq(c.n, self.size)))
            ex.assert_stops = True
        self.out(ex, st, c)
        c.par, pre = params(ex, st, ['bech32_hrp'])
        c.g, c.h = pre['bech32_hrp']
        return [Ptr(c.id, 0), U(64, c.n), Ptr(c.out, 0), U(64, c.cap), Ptr(c.par, 0)], c

    def done(self, ex, outs, c):
        if self.other and not getattr(self, 'release', False):
            ex.oblige(State(), True, 'every path stops or refuses')
        elif not outs:
            raise Unsupported('no path of the function returns')

    def post(self, ex, st, ret, c):
        if self.other:
            return self.result(ex, st, ret, c, None, None, 0, False)
        self.witness(ex, st, ret, c, const_seq(b'\0'), fn_seq(c.f, c.n), True)

    def witness(self, ex, st, ret, c, version, prog, legal):
        R = hash_of(ex, st, 'to_base32_raw', String, prog)
        m = enc_len(ALPHA['raw'], prog.n)
        st.add(eq(keep(LEN(R)), m))
        D = hash_of(ex, st, 'bech32', String, fn_seq(c.g, c.h), cat_seq(version, str_seq(R, m, 5)))
        L = add(add(add(c.h, 1), m), 7)
        self.result(ex, st, ret, c, D, L, L, legal)


@register
class ToKeyHash(Witness):
    name, size = 'fingera_to_address_witnessv0_keyhash', 20


@register
class ToScriptHash(Witness):
    name, size = 'fingera_to_address_witnessv0_scripthash', 32


@register
class ToKeyHashOther(Witness):
    name, func, size, other = 'fingera_to_address_witnessv0_keyhash [other sizes]', 'fingera_to_address_witnessv0_keyhash', 20, True


@register
class ToScriptHashOther(Witness):
    name, func, size, other = 'fingera_to_address_witnessv0_scripthash [other sizes]', 'fingera_to_address_witnessv0_scripthash', 32, True


@register
class ToKeyHashRelease(Witness):
    """with assertions compiled out the illegal sizes are refused"""
    name, func, size, other = 'fingera_to_address_witnessv0_keyhash [other sizes NDEBUG]', 'fingera_to_address_witnessv0_keyhash', 20, True
    release = True


@register
class ToScriptHashRelease(Witness):
    name, func, size, other = 'fingera_to_address_witnessv0_scripthash [other sizes NDEBUG]', 'fingera_to_address_witnessv0_scripthash', 32, True
    release = True


@register
class ToUnknown(Witness):
    name = 'fingera_to_address_witness_unknown'

    def post(self, ex, st, ret, c):
        f, n = c.f, c.n
        v = f(z3.IntVal(0))
        legal = And(le(3, n), le(n, 41), keep(z3.And(z3.UGE(v, bv(8, 1)), z3.ULE(v, bv(8, 16)))))
        s = st.copy()
        s.add(Not(legal))
        if ex.feasible(s, z3.BoolVal(True)):
            self.result(ex, s, ret, c, None, None, 0, False)
        st.add(legal)
        if ex.feasible(st, z3.BoolVal(True)):
            prog = Seq(lambda s, i: BV(8, keep(f(ival(add(i, 1))))), sub(n, 1))
            self.witness(ex, st, ret, c, Seq(lambda s, i: BV(8, keep(v)), 1), prog, legal)


@register
class Decode(Contract):
    name = 'fingera_btc_address_decode'
    uses = ('fingera_from_base58_check', 'fingera_bech32_decode', 'fingera_from_base32_raw')

    def setup(self, ex, st):
        c = Ctx()
        c.n = size_param(ex, st, 'str_len', 0, (1 << 31) - 1)
        c.s, c.f = in_buf(ex, st, 'str', c.n)
        c.cap = size_param(ex, st, 'out_size', 0, 1 << 40)
        c.out = out_buf(ex, st, 'out', c.cap)
        c.sz = out_buf(ex, st, 'out_size', 8)
        ex.store(st, Ptr(c.sz, 0), U(64, c.cap), 8, 'set-up')
        c.par, c.pre = params(ex, st, ['prefix_pubkey_address', 'prefix_script_address', 'bech32_hrp'])
        return [Ptr(c.s, 0), U(64, c.n), Ptr(c.out, 0), Ptr(c.sz, 0), Ptr(c.par, 0)], c

    def expect(self, ex, st, ret, c, cond, kind, L, seq, what):
        s = st.copy()
        for q in cond:
            s.add(q)
        if not ex.feasible(s, z3.BoolVal(True)):
            return
        ex.oblige(s, eq(as_u(ret), kind), what)
        if kind == BAD:
            return
        ex.oblige(s, eq(as_u(ex.load(s, Ptr(c.sz, 0), ir.INT(64))), L), 'payload size: ' + what)
        j = skolem(ex, s, 'j', 0, L)
        if j is not None:
            s.term(add(j, 1))
            ex.oblige(s, keep(bv8(ex, s, c.out, j) == as_bv(seq(s, j))), 'payload: ' + what)

    def post(self, ex, st, ret, c):
        n = c.n
        st.add(le(n, c.cap))
        if not ex.feasible(st, z3.BoolVal(True)):
            return
        text = fn_seq(c.f, n)
        B = hash_of(ex, st, 'from_base58check', String, text)
        L = keep(LEN(B))
        st.add(le(0, L))
        T = hash_of(ex, st, 'bech32_text', Bech, text)
        h, d = bech_facts(st, T, n)
        for j in range(HRP + 1):
            st.term(j)

        def starts(field):
            g, p = c.pre[field]
            return And(le(p, L), *[Or(le(p, j), keep(CHR(B, z3.IntVal(j)) == g(z3.IntVal(j)))) for j in range(8)])
        pub = And(lt(0, L), starts('prefix_pubkey_address'))
        scr = And(lt(0, L), starts('prefix_script_address'))
        pp, sp = c.pre['prefix_pubkey_address'][1], c.pre['prefix_script_address'][1]
        self.expect(ex, st, ret, c, [pub], PUBKEY, sub(L, pp), lambda s, j: BV(8, char(B, add(j, pp))), 'a public-key address')
        st.add(Not(pub))
        self.expect(ex, st, ret, c, [scr], SCRIPT, sub(L, sp), lambda s, j: BV(8, char(B, add(j, sp))), 'a script address')
        st.add(Not(scr))
        # witness addresses
        hg, hn = c.pre['bech32_hrp']
        same = And(eq(h, hn), *[Or(le(hn, j), keep(CHR(BHRP(T), z3.IntVal(j)) == hg(z3.IntVal(j)))) for j in range(HRP)])
        wit = And(keep(BOK(T)), same, le(1, d))
        self.expect(ex, st, ret, c, [Not(wit)], BAD, 0, None, 'a text that is neither is refused')
        st.add(wit)
        if not ex.feasible(st, z3.BoolVal(True)):
            return
        V = BDATA(T)
        m = sub(d, 1)
        bits = imod(mul(m, 5), 8)
        last = char(V, m, 5)
        pad = le(bits, 4)
        for b in range(1, 5):
            pad = And(pad, Or(Not(eq(bits, b)), keep(z3.Extract(b - 1, 0, last) == 0)))
        self.expect(ex, st, ret, c, [Not(pad)], BAD, 0, None, 'bad padding is refused')
        st.add(pad)
        if not ex.feasible(st, z3.BoolVal(True)):
            return
        E = hash_of(ex, st, 'from_base32_raw', String, str_seq(V, m, 5, 1))
        k = dec_len(ALPHA['raw'], m)
        st.add(eq(keep(LEN(E)), k))
        ver = char(V, 0, 5)
        v0 = keep(ver == 0)
        known = keep(z3.And(z3.UGE(ver, bv(8, 1)), z3.ULE(ver, bv(8, 16))))
        self.expect(ex, st, ret, c, [v0, eq(k, 20)], KEYHASH, 20, lambda s, j: BV(8, char(E, j)), 'a version 0 key hash')
        self.expect(ex, st, ret, c, [v0, eq(k, 32)], SCRIPTHASH, 32, lambda s, j: BV(8, char(E, j)), 'a version 0 script hash')
        self.expect(ex, st, ret, c, [v0, Not(Or(eq(k, 20), eq(k, 32)))], BAD, 0, None, 'another version 0 length is refused')
        ok = And(le(2, k), le(k, 40))
        self.expect(ex, st, ret, c, [known, ok], UNKNOWN, add(k, 1),
                    lambda s, j: BV(8, keep(z3.If(zb(eq(j, 0)), ver, char(E, sub(j, 1))))), 'a witness address of another version')
        self.expect(ex, st, ret, c, [Not(v0), Not(And(known, ok))], BAD, 0, None, 'an illegal version or program length is refused')
