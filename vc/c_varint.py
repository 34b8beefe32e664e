"""Contracts of compress_integer.c.

Encodings of length L represent exactly the interval [BASE(L), BASE(L+1)), BASE(1)=0, BASE(L+1)=BASE(L)+128^L; the bytes are
the big-endian base-128 digits of value-BASE(L) with the continuation bit on all but the last."""
from .contract import *


def bv(w, v):
    return z3.BitVecVal(v, w)


def BASE(L):
    b = 0
    for i in range(1, L):
        b += 128 ** i
    return b


def digits(v, L):
    """the L bytes encoding the 64-bit value v (valid when v is in the interval of L)"""
    d = z3.ZeroExt(16, v) - bv(80, BASE(L))
    out = []
    for i in range(L):
        x = z3.Extract(6, 0, z3.LShR(d, 7 * (L - 1 - i)))
        out.append(z3.Concat(bv(1, 1 if i < L - 1 else 0), x))
    return out


def in_interval(v, L):
    w = z3.ZeroExt(16, v)
    return z3.And(z3.UGE(w, bv(80, BASE(L))), z3.ULT(w, bv(80, BASE(L + 1))))


def encoded(ex, st, ret, out, v, what):
    r = as_u(ret)
    cases = []
    ok = Or(*[And(eq(r, L), in_interval(v, L)) for L in range(1, 11)])
    ex.oblige(st, ok, what + ': the length is the one whose interval contains the value')
    for L in range(1, 11):
        s = st.copy()
        s.add(eq(r, L))
        if not ex.feasible(s, z3.BoolVal(True)):
            continue
        for i, d in enumerate(digits(v, L)):
            ex.oblige(s, bv8(ex, s, out, i) == d, what + ': byte %d of %d' % (i, L))


def decoded_value(f, L):
    xs = [z3.Extract(6, 0, f(z3.IntVal(i))) for i in range(L)]
    x = z3.Concat(*xs) if L > 1 else xs[0]
    return z3.ZeroExt(96 - 7 * L, x) + bv(96, BASE(L))


def terminates(f, L):
    return z3.And([z3.Extract(7, 7, f(z3.IntVal(i))) == bv(1, 1 if i < L - 1 else 0) for i in range(L)])


@register
class EncodeVarint(Contract):
    name = 'fingera_encode_varint'

    def setup(self, ex, st):
        c = Ctx()
        c.v = int_param(ex, st, 'value', 64)
        c.out = out_buf(ex, st, 'buf', 10)
        return [c.v, Ptr(c.out, 0)], c

    def post(self, ex, st, ret, c):
        encoded(ex, st, ret, c.out, c.v.e, 'varint')


@register
class DecodeVarint(Contract):
    name = 'fingera_decode_varint'

    def setup(self, ex, st):
        c = Ctx()
        c.n = size_param(ex, st, 'size')
        c.s, c.f = in_buf(ex, st, 'buf', c.n)
        c.out = out_buf(ex, st, 'out', 8)
        return [Ptr(c.s, 0), U(64, c.n), Ptr(c.out, 0)], c

    def value(self, ex, st, c):
        return as_bv(ex.load(st, Ptr(c.out, 0), ir_int(64)))

    def expect(self, u):
        return u

    def post(self, ex, st, ret, c):
        r = as_u(ret)
        f = c.f
        ex.oblige(st, And(le(r, c.n), le(r, 10)), 'the size read is within the input and at most 10')
        for L in range(1, 11):
            s = st.copy()
            s.add(eq(r, L))
            if ex.feasible(s, z3.BoolVal(True)):
                ex.oblige(s, terminates(f, L), 'the first %d bytes are one encoding' % L)
                v = decoded_value(f, L)
                ex.oblige(s, z3.ULT(v, bv(96, 1 << 64)), 'the represented value fits 64 bits (%d bytes)' % L)
                ex.oblige(s, self.value(ex, s, c) == self.expect(z3.Extract(63, 0, v)), 'the decoded value (%d bytes)' % L)
        s = st.copy()
        s.add(eq(r, 0))
        if ex.feasible(s, z3.BoolVal(True)):
            for L in range(1, 11):
                good = z3.And(ival(c.n) >= L, terminates(f, L), z3.ULT(decoded_value(f, L), bv(96, 1 << 64)))
                ex.oblige(s, z3.Not(good), 'a complete encoding of %d bytes is not refused' % L)


def ir_int(w):
    from . import ir
    return ir.INT(w)


def zig(v):
    """sign and magnitude, the magnitude taken modulo 2^64"""
    neg = v < 0
    return z3.If(neg, ((-v) << 1) | 1, v << 1)


def unzig(u):
    m = z3.LShR(u, 1)
    neg = z3.Extract(0, 0, u) == 1
    return z3.If(neg, z3.If(m == 0, bv(64, 1 << 63), -m), m)


@register
class EncodeZigzag(Contract):
    name = 'fingera_encode_zigzag'

    def setup(self, ex, st):
        c = Ctx()
        c.v = int_param(ex, st, 'value', 64)
        c.out = out_buf(ex, st, 'buf', 10)
        return [c.v, Ptr(c.out, 0)], c

    def post(self, ex, st, ret, c):
        encoded(ex, st, ret, c.out, zig(c.v.e), 'zigzag')


@register
class DecodeZigzag(DecodeVarint):
    name = 'fingera_decode_zigzag'

    def expect(self, u):
        return unzig(u)
