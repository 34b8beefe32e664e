"""Contracts of base58.c: exact base conversion with leading zeros kept."""
from .contract import *
from .chain import Chain, inner, outer
from . import chain
from .seq import *

ALPHA = '123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz'


def runs():
    """the alphabet as runs of consecutive characters: (first code, length, first value)"""
    out = []
    for v, ch in enumerate(ALPHA):
        c = ord(ch)
        if out and c == out[-1][0] + out[-1][1]:
            out[-1][1] += 1
        else:
            out.append([c, 1, v])
    return out


def is_alpha(c):
    return Or(*[And(le(a, c), lt(c, a + n)) for a, n, v in runs()])


def value(c):
    e = 0
    for a, n, v in runs():
        e = If(And(le(a, c), lt(c, a + n)), add(sub(c, a), v), e)
    return e


def char(d):
    e = 0
    for a, n, v in runs():
        e = If(And(le(v, d), lt(d, v + n)), add(sub(d, v), a), e)
    return e


def is_space(c):
    return Or(And(le(9, c), le(c, 13)), eq(c, 32))


def first_not(ex, st, name, lo, hi, pred):
    """the first index lo <= x <= hi with x = hi or not pred(x)"""
    k = ex.newint(st, name, 0, 1 << 40)
    st.add(le(add(lo, k), hi))
    st.quant(Quant(0, k, lambda j: pred(st, add(lo, j)), name))
    st.add(Or(eq(add(lo, k), hi), Not(pred(st, add(lo, k)))))
    st.add(Or(eq(k, 0), pred(st, lo)))
    st.term(k)
    return add(lo, k)


class B58(Contract):
    intmode = True

    def src(self, ex, st, c, name, n):
        rid, f = in_buf(ex, st, name, n)

        def at(s, i):
            e = keep(f(ival(i)))
            bound(e, 0, 255)
            s.add(keep(z3.And(e >= 0, e <= 255)))
            return e
        c.at = at
        return rid

    def digits(self, ex, st, c, X, out, z, r, code, T):
        """out[z .. z+r) are the digits of N(T), most significant first, without leading zeros"""
        num = st.g.get('num')
        if num is None:
            ex.oblige(st, eq(T, 0), 'no digit is skipped')
            ex.oblige(st, eq(r, 0), 'the number zero has no digits')
            return
        reg, E, L, V, T2, node = num
        ex.oblige(st, eq(T, T2), 'every digit of the source is converted')
        ex.oblige(st, And(le(0, r), le(r, L)), 'number of digits')
        ex.oblige(st, eq(V, X.N(ival(T2))), 'the buffer holds the number of the source')
        s = st.copy()
        j = skolem(ex, s, 'j', 0, r)
        if j is not None:
            w = as_u(ex.read8(s, node, sub(E, j)))
            o = add(z, sub(sub(r, 1), j))
            s.term(o)
            s.term(sub(o, z))
            got = as_u(byte_at(ex, s, out, o))
            ex.oblige(s, eq(got, code(w)), 'digit j of the number')
        s = st.copy()
        j = ex.newint(s, 'j', 0, None)
        s.add(And(le(r, j), lt(j, L)))
        if ex.feasible(s, z3.BoolVal(True)):
            s.term(sub(sub(L, 1), j))
            ex.oblige(s, eq(as_u(ex.read8(s, node, sub(E, j))), 0), 'only leading zeros are dropped')
        s = st.copy()
        s.add(lt(0, r))
        if ex.feasible(s, z3.BoolVal(True)):
            ex.oblige(s, Not(eq(as_u(ex.read8(s, node, sub(E, sub(r, 1)))), 0)), 'the first digit is not zero')


@register
class ToBase58(B58):
    name = 'fingera_to_base58'

    def setup(self, ex, st):
        c = Ctx()
        c.n = size_param(ex, st, 'buf_size', 0, 1500000000)
        c.buf = self.src(ex, st, c, 'buf', c.n)
        c.str = out_buf(ex, st, 'str', add(idiv(mul(c.n, 138), 100), 2))
        c.a = first_not(ex, st, 'zeros', 0, c.n, lambda s, i: eq(c.at(s, i), 0))
        ex.canon = {c.buf: [c.a], None: [c.a]}
        c.X = Chain(256, 58, c.a, c.n, c.at)
        ex.hooks = [outer(c.X), inner(c.X)]
        ex.secret_heap = ("*",)
        ex.name_terms = True
        return [Ptr(c.buf, 0), U(64, c.n), Ptr(c.str, 0)], c

    def post(self, ex, st, ret, c):
        r = sub(as_u(ret), c.a)
        ex.oblige(st, le(as_u(ret), add(idiv(mul(c.n, 138), 100), 2)), 'at most the announced length')
        s = st.copy()
        j = skolem(ex, s, 'j', 0, c.a)
        if j is not None:
            ex.oblige(s, eq(as_u(byte_at(ex, s, c.str, j)), ord('1')), 'one 1 per leading zero byte')
        self.digits(ex, st, c, c.X, c.str, c.a, r, char, sub(c.n, c.a))


    def call(self, ex, st, v):
        n = as_u(v[1])
        ex.rw_ok(st, v[0], n, 'input of ' + self.name, False)
        ex.oblige(st, le(n, 1500000000), 'input size of ' + self.name)
        if v[0].r == v[2].r and v[0].r is not None:
            raise Unsupported('overlapping buffers')
        D = hash_of(ex, st, 'base58', String, mem_seq(ex, st, v[0], n))
        cap = add(idiv(mul(n, 138), 100), 2)
        L = str_len(st, D, cap)
        write_str(ex, st, v[2], D, L, L, 'text of ' + self.name)
        return [(st, U(64, L))]


@register
class FromBase58(B58):
    name = 'fingera_from_base58'

    def setup(self, ex, st):
        c = Ctx()
        c.n = size_param(ex, st, 'str_len', 0, (1 << 31) - 1)
        c.s = self.src(ex, st, c, 'str', c.n)
        c.buf = out_buf(ex, st, 'buf', c.n)
        space = lambda s, i: is_space(c.at(s, i))
        c.a0 = first_not(ex, st, 'spaces', 0, c.n, space)
        c.a = first_not(ex, st, 'ones', c.a0, c.n, lambda s, i: eq(c.at(s, i), ord('1')))
        c.e = first_not(ex, st, 'digits', c.a, c.n, lambda s, i: is_alpha(c.at(s, i)))
        c.q = first_not(ex, st, 'trailing', c.e, c.n, space)
        ex.canon = {c.s: [c.a0, c.a, c.e, c.q], None: [sub(c.a, c.a0)]}
        c.X = Chain(58, 256, c.a, c.n, lambda s, i: value(c.at(s, i)), lambda s, i: is_alpha(c.at(s, i)))
        ex.hooks = [outer(c.X), inner(c.X)]
        ex.secret_heap = ("*",)
        ex.name_terms = True
        return [Ptr(c.s, 0), U(64, c.n), Ptr(c.buf, 0)], c

    def post(self, ex, st, ret, c):
        s = st.copy()
        s.add(lt(c.q, c.n))
        if ex.feasible(s, z3.BoolVal(True)):
            ex.oblige(s, eq(as_u(ret), 0), 'any other text is refused')
        st.add(eq(c.q, c.n))
        if not ex.feasible(st, z3.BoolVal(True)):
            return
        z = sub(c.a, c.a0)
        r = sub(as_u(ret), z)
        ex.oblige(st, le(as_u(ret), c.n), 'at most the announced length')
        s = st.copy()
        j = skolem(ex, s, 'j', 0, z)
        if j is not None:
            ex.oblige(s, eq(as_u(byte_at(ex, s, c.buf, j)), 0), 'one zero byte per leading 1')
        self.digits(ex, st, c, c.X, c.buf, z, r, lambda w: w, sub(c.e, c.a))

    def call(self, ex, st, v):
        n = as_u(v[1])
        ex.rw_ok(st, v[0], n, 'text of ' + self.name, False)
        ex.oblige(st, lt(n, 1 << 31), 'text size of ' + self.name)
        if v[0].r == v[2].r and v[0].r is not None:
            raise Unsupported('overlapping buffers')
        D = hash_of(ex, st, 'from_base58', String, mem_seq(ex, st, v[0], n))
        L = str_len(st, D, n)
        write_str(ex, st, v[2], D, L, L, 'output of ' + self.name)
        return [(st, U(64, L))]
