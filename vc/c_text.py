"""Contracts of the text forms of keys (btc/key.c, btc/exkey.c) over those of Base58Check."""
from .contract import *
from . import ir, secp
from .seq import *
from .c_rand import initialised
from .c_key import Key, ExKey, bvin, layout, check_struct, truth, same_bytes, DEPTH, FP, CHILD, CHAIN, KEY, EXKEY, EXPUB, b8, bv
from .c_b58c import cap58
from .c_chain import order
MAXP = 8      # longest prefix of a network parameter set

USES = ('fingera_to_base58_check', 'fingera_from_base58_check')


def params(ex, st, fields):
    """an arbitrary parameter set; of the listed fields the prefixes are input blocks of at most 8 bytes"""
    ty = ex.prog.globs['@g_mainnet_chain_parameters'][1]['ty']
    names = order()
    off = lambda n: ir.field_offset(ty, names.index(n))
    rid, _ = in_buf(ex, st, 'param', ir.sizeof(ty))
    out = {}
    for f in fields:
        hi = 16 if f == 'bech32_hrp' else MAXP
        n = size_param(ex, st, f + '_size', 1 if f == 'bech32_hrp' else 0, hi)
        p, g = in_buf(ex, st, f, n)
        st.mem[rid] = Store(Store(st.mem[rid], off(f), 8, Ptr(p, 0)), off(f + '_size'), 4, U(32, n))
        out[f] = (g, n)
    ex.regions[rid].entry = st.mem[rid]
    return rid, out


def text_is(ex, st, rid, ret, D):
    """the text at rid is the string D, its length is returned"""
    ex.oblige(st, eq(as_u(ret), keep(LEN(D))), 'length of the Base58Check text')
    j = skolem(ex, st, 'j', 0, keep(LEN(D)))
    if j is not None:
        ex.oblige(st, keep(bv8(ex, st, rid, j) == CHR(D, ival(j))), 'Base58Check text of network prefix and data')


def prefix_is(D, g, p):
    return And(*[Or(le(p, j), keep(CHR(D, z3.IntVal(j)) == g(z3.IntVal(j)))) for j in range(MAXP)])


class Text(Contract):
    uses = USES


@register
class WifTo(Text):
    """Base58Check(prefix || key || [01 for compressed keys])"""
    name = 'fingera_btc_key_to_string'

    def setup(self, ex, st):
        c = Ctx()
        c.key, c.k = in_buf(ex, st, 'key32', 32)
        c.par, c.pre = params(ex, st, ['prefix_secret_key'])
        c.g, c.p = c.pre['prefix_secret_key']
        # fingera_key_string_max_length()
        c.str = out_buf(ex, st, 'key_str', cap58(32 + 4 + MAXP))
        c.comp = int_param(ex, st, 'is_compressed')
        ex.secret_heap = ('*',)
        return [Ptr(c.key, 0), Ptr(c.str, 0), c.comp, Ptr(c.par, 0)], c

    def post(self, ex, st, ret, c):
        z = as_bv(c.comp) == 0
        for b in (False, True):
            s = st.copy()
            s.add(keep(z3.Not(z) if b else z))
            if not ex.feasible(s, z3.BoolVal(True)):
                continue
            data = [fn_seq(c.k, 32)] + ([const_seq(b'\1')] if b else [])
            D = hash_of(ex, s, 'base58check', String, cat_seq(fn_seq(c.g, c.p), *data))
            text_is(ex, s, c.str, ret, D)


@register
class WifFrom(Text):
    name = 'fingera_btc_key_from_string'

    def setup(self, ex, st):
        c = Ctx()
        c.n = size_param(ex, st, 'str_len', 0, (1 << 31) - 1)
        c.s, c.f = in_buf(ex, st, 'key_str', c.n)
        c.par, c.pre = params(ex, st, ['prefix_secret_key'])
        c.g, c.p = c.pre['prefix_secret_key']
        c.key = out_buf(ex, st, 'key32', 32)
        c.comp = out_buf(ex, st, 'is_compressed', 4)
        ex.secret_heap = ('*',)
        return [Ptr(c.s, 0), U(64, c.n), Ptr(c.key, 0), Ptr(c.comp, 0), Ptr(c.par, 0)], c

    def post(self, ex, st, ret, c):
        D = hash_of(ex, st, 'from_base58check', String, fn_seq(c.f, c.n))
        L, p = keep(LEN(D)), c.p
        st.add(le(0, L))
        at = lambda i: keep(CHR(D, ival(i)))
        acc = truth(ret)
        comp = And(eq(L, add(p, 33)), keep(at(add(p, 32)) == 1))
        plain = eq(L, add(p, 32))
        pre = prefix_is(D, c.g, p)
        for j in range(MAXP):
            st.term(j)
        for w, cond, want in (('a compressed key', And(comp, pre), True), ('an uncompressed key', And(plain, pre), True),
                              ('anything else', Not(And(Or(comp, plain), pre)), False)):
            s = st.copy()
            s.add(cond)
            if not ex.feasible(s, z3.BoolVal(True)):
                continue
            if not want:
                ex.oblige(s, z3.Not(acc), w + ' is refused')
                continue
            ex.oblige(s, acc, w + ' is accepted')
            flag = as_bv(ex.load(s, Ptr(c.comp, 0), ir.INT(32)))
            ex.oblige(s, keep((flag != 0) == (w == 'a compressed key')), 'compression flag of ' + w)
            for i in range(32):
                ex.oblige(s, keep(bv8(ex, s, c.key, i) == at(add(p, i))), 'the key of ' + w, share=i)


class ExText(ExKey):
    uses = USES
    pubk = False

    def setup(self, ex, st):
        c = Ctx()
        return self.args(ex, st, c), c


class ExTo(ExText):
    def args(self, ex, st, c):
        c.x = self.ext(ex, st, c, 'key', 33 if self.pubk else 32)
        f = 'prefix_ext_public_key' if self.pubk else 'prefix_ext_secret_key'
        c.par, pre = params(ex, st, [f])
        c.g, c.p = pre[f]
        # fingera_exkey_string_max_length()
        c.str = out_buf(ex, st, 'str', cap58(74 + 4 + MAXP))
        ex.secret_heap = () if self.pubk else ('*',)
        return [Ptr(c.x.rid, 0), Ptr(c.str, 0), Ptr(c.par, 0)]

    def post(self, ex, st, ret, c):
        D = hash_of(ex, st, 'base58check', String, cat_seq(fn_seq(c.g, c.p), bv_seq(keep(concat(layout(c.x, self.pubk))))))
        text_is(ex, st, c.str, ret, D)


@register
class ExKeyTo(ExTo):
    name, pubk = 'fingera_exkey_to_string', False


@register
class ExPubTo(ExTo):
    name, pubk = 'fingera_expubkey_to_string', True


class ExFrom(ExText):
    def args(self, ex, st, c):
        c.n = size_param(ex, st, 'str_len', 0, (1 << 31) - 1)
        c.s, c.f = in_buf(ex, st, 'str', c.n)
        f = 'prefix_ext_public_key' if self.pubk else 'prefix_ext_secret_key'
        c.par, pre = params(ex, st, [f])
        c.g, c.p = pre[f]
        c.out = out_buf(ex, st, 'key', EXPUB if self.pubk else EXKEY)
        ex.secret_heap = () if self.pubk else ('*',)
        return [Ptr(c.s, 0), U(64, c.n), Ptr(c.out, 0), Ptr(c.par, 0)]

    def post(self, ex, st, ret, c):
        D = hash_of(ex, st, 'from_base58check', String, fn_seq(c.f, c.n))
        L, p = keep(LEN(D)), c.p
        st.add(le(0, L))
        at = lambda i: keep(CHR(D, ival(i)))
        acc = truth(ret)
        t = at(add(p, 41))
        tag = keep(z3.Or(t == 2, t == 3) if self.pubk else t == 0)
        good = And(eq(L, add(p, 74)), prefix_is(D, c.g, p), tag)
        for j in range(MAXP):
            st.term(j)
        s = st.copy()
        s.add(Not(good))
        if ex.feasible(s, z3.BoolVal(True)):
            ex.oblige(s, z3.Not(acc), 'any other text is refused')
        st.add(good)
        if not ex.feasible(st, z3.BoolVal(True)):
            return
        ex.oblige(st, acc, 'a well-formed text is accepted')
        check_struct(self, ex, st, c.out, keep(concat([at(add(p, i)) for i in range(74)])), self.pubk)


@register
class ExKeyFrom(ExFrom):
    name, pubk = 'fingera_exkey_from_string', False


@register
class ExPubFrom(ExFrom):
    name, pubk = 'fingera_expubkey_from_string', True
