"""Contracts of btc/bech32.c against BIP 173."""
from .contract import *
from . import ir
from .seq import hash_of, mem_seq, String, LEN, CHR, write_str, char

CHARSET = b'qpzry9x8gf2tvdw0s3jn54khce6mua7l'
GEN = (0x3b6a57b2, 0x26508e6d, 0x1ea119fa, 0x3d4233dd, 0x2a1462b3)
DEC = [255] * 256
for _i, _c in enumerate(CHARSET):
    DEC[_c] = _i
    DEC[bytes([_c]).upper()[0]] = _i


def bv(w, v):
    return z3.BitVecVal(v, w)


def step(c, v):
    """bech32_polymod, one value (BIP 173); 30-bit state"""
    x = z3.Concat(z3.Extract(24, 0, c), bv(5, 0))
    for i, g in enumerate(GEN):
        x = x ^ z3.If(z3.Extract(25 + i, 25 + i, c) == 1, bv(30, g), bv(30, 0))
    return x ^ z3.ZeroExt(22, v)


class Polymod:
    """P(0) = 1, P(j+1) = step(P(j), V(j))"""
    kind, name, w = 'scalar', 'polymod', 32

    def __init__(self, V, bases):
        self.P = z3.Function('polymod!%d' % fresh_id(), z3.IntSort(), z3.BitVecSort(30))
        self.V, self._bases = V, bases

    def bases(self, ex, st):
        return self._bases

    def at(self, b):
        o = Polymod.__new__(Polymod)
        o.P, o.V, o._bases, o.base = self.P, self.V, self._bases, b
        return o

    def value(self, ex, s, j):
        if isc(j) and j == 0:
            return C(32, 1)
        s.add(keep(self.P(z3.IntVal(0)) == bv(30, 1)))
        return IV(32, 'b', keep(z3.Concat(bv(2, 0), self.P(ival(j)))))

    def unfold(self, ex, s, j):
        if isc(j) and j < 0:
            return
        self.value(ex, s, j)
        s.add(keep(self.P(ival(add(j, 1))) == step(self.P(ival(j)), self.V(s, j))))


def dec8(ex, x):
    """data value of a character, 255 when it is outside the alphabet"""
    return as_bv(ex.tree(x, 8, DEC, 8))


def lower8(x):
    up = z3.And(z3.UGE(x, bv(8, 65)), z3.ULE(x, bv(8, 90)))
    return z3.If(up, x | bv(8, 0x20), x)


def is_up(x):
    return z3.And(z3.UGE(x, bv(8, 65)), z3.ULE(x, bv(8, 90)))


def is_low(x):
    return z3.And(z3.UGE(x, bv(8, 97)), z3.ULE(x, bv(8, 122)))


def printable(x):
    return z3.And(z3.UGE(x, bv(8, 33)), z3.ULE(x, bv(8, 126)))


def pick(conds, default):
    e = default
    for c, v in reversed(conds):
        c = zb(c)
        e = z3.If(c, v, e)
    return keep(e)


def expanded(hrp, h, data):
    """the value sequence of a human-readable part of h characters followed by data values"""
    def V(s, j):
        if h is None:
            return data(s, j)
        i2 = sub(sub(j, h), 1)
        a = z3.LShR(hrp(s, j), 5)
        b = hrp(s, i2) & bv(8, 31)
        d = data(s, sub(i2, h))
        return pick([(lt(j, h), a), (eq(j, h), bv(8, 0)), (lt(i2, h), b)], d)
    return V


@register
class Bech32Encode(Contract):
    """result = hrp "1" charset(b32) charset(checksum)"""
    name = 'fingera_bech32_encode'

    def setup(self, ex, st):
        c = Ctx()
        c.h = size_param(ex, st, 'hrp_len', 0, 1 << 60)
        c.n = size_param(ex, st, 'b32_size', 0, 1 << 60)
        c.hrp, c.hf = in_buf(ex, st, 'hrp', c.h)
        c.b, c.bf = in_buf(ex, st, 'b32', c.n)
        c.out = out_buf(ex, st, 'result', add(add(c.h, c.n), 7))
        # precondition: 5-bit values
        st.quant(Quant(0, c.n, lambda j: keep(z3.ULT(c.bf(ival(j)), bv(8, 32))), 'b32 values below 32'))
        hf = lambda s, j: c.hf(ival(j))
        data = lambda s, j: pick([(lt(j, c.n), c.bf(ival(j)))], bv(8, 0))
        N = add(add(mul(c.h, 2), 1), c.n)
        c.fold = Polymod(expanded(hf, c.h, data), [0, add(c.h, 1), add(mul(c.h, 2), 1), N])
        ex.folds = [c.fold]
        return [Ptr(c.hrp, 0), U(64, c.h), Ptr(c.b, 0), U(64, c.n), Ptr(c.out, 0)], c

    def post(self, ex, st, ret, c):
        h, n = c.h, c.n
        o = lambda s, j: bv8(ex, s, c.out, j)
        s = st.copy()
        j = skolem(ex, s, 'j', 0, h)
        if j is not None:
            ex.oblige(s, keep(o(s, j) == c.hf(ival(j))), 'the human-readable part is copied')
        ex.oblige(st, keep(o(st, h) == bv(8, ord('1'))), 'the separator follows')
        s = st.copy()
        j = skolem(ex, s, 'j', 0, n)
        if j is not None:
            x = c.bf(ival(j))
            ex.oblige(s, keep(o(s, add(add(h, 1), j)) == as_bv(ex.tree(z3.Extract(4, 0, x), 5, list(CHARSET), 8))), 'data characters')
        s = st.copy()
        N = add(add(mul(h, 2), 1), n)
        m = as_bv(c.fold.value(ex, s, add(N, 6))) ^ bv(32, 1)
        for i in range(6):
            x = z3.Extract(5 * (5 - i) + 4, 5 * (5 - i), m)
            ex.oblige(s, keep(o(s, add(add(add(h, n), 1), i)) == as_bv(ex.tree(x, 5, list(CHARSET), 8))), 'checksum character %d' % i)

    def call(self, ex, st, v):
        h, n = as_u(v[1]), as_u(v[3])
        ex.rw_ok(st, v[0], h, 'prefix of ' + self.name, False)
        ex.rw_ok(st, v[2], n, 'values of ' + self.name, False)
        ex.oblige(st, And(le(h, 1 << 60), le(n, 1 << 60)), 'sizes of ' + self.name)
        if v[4].r is not None and v[4].r in (v[0].r, v[2].r):
            raise Unsupported('overlapping buffers')
        s, data = st.copy(), mem_seq(ex, st, v[2], n)
        j = skolem(ex, s, 'j', 0, n)
        if j is not None:
            ex.oblige(s, keep(z3.ULT(as_bv(data.fn(s, j)), bv(8, 32))), 'values of %s are below 32' % self.name)
        D = hash_of(ex, st, 'bech32', String, mem_seq(ex, st, v[0], h), data)
        L = add(add(h, n), 7)
        st.add(eq(keep(LEN(D)), L))
        write_str(ex, st, v[4], D, L, L, 'text of ' + self.name)
        return [(st, None)]


# the value of a text: is it valid, its human-readable part in lower case, its data values (below 32)
Bech = z3.DeclareSort('Bech')
BOK = z3.Function('valid_bech32', Bech, z3.BoolSort())
BHRP = z3.Function('hrp_of', Bech, String)
BDATA = z3.Function('data_of', Bech, String)


def bech_facts(st, T, n):
    """lengths of the parts of a valid text of n characters"""
    # the parts of a text that is not valid are arbitrary: take any of these lengths
    T_h, T_d = bound(keep(LEN(BHRP(T))), 1, 83), bound(keep(LEN(BDATA(T))), 0, 82)
    st.add(keep(z3.And(T_h >= 1, T_h <= 83, T_d >= 0, T_d <= 82)))
    for q in (And(le(n, 90), le(1, T_h), le(0, T_d), eq(add(add(T_h, T_d), 7), n)),):
        st.add(Implies(keep(BOK(T)), q))
    return T_h, T_d


class Text:
    """ghost: what BIP 173 says about a text of n characters"""
    def __init__(self, ex, st, f, n):
        self.f, self.n = f, n
        # the position of the last separator, -1 when there is none (always exists)
        self.p = ex.newint(st, 'sep', -1, None)
        st.add(lt(self.p, n))
        st.add(Or(eq(self.p, -1), keep(self.at(self.p) == bv(8, ord('1')))))
        st.quant(Quant(add(self.p, 1), n, lambda j: keep(self.at(j) != bv(8, ord('1'))), 'no separator after the last'))
        st.term(self.p)

    def at(self, j):
        return self.f(ival(j))

    def values(self, ex):
        p = self.p
        return expanded(lambda s, j: lower8(self.at(j)), p, lambda s, i: dec8(ex, self.at(add(add(p, 1), i))))

    def bases(self):
        p = self.p
        return [0, add(p, 1), add(mul(p, 2), 1), sub(self.total(), 6)]

    def well_formed(self, s):
        """facts of the definition other than the alphabet and the checksum; two case variants"""
        n, p = self.n, self.p
        out = []
        for g in (is_up, is_low):
            a = s.copy()
            a.add(And(le(n, 90), le(1, p), le(add(p, 7), n)))
            a.quant(Quant(0, n, lambda j: keep(printable(self.at(j))), 'printable'))
            a.quant(Quant(0, n, lambda j, g=g: keep(z3.Not(g(self.at(j)))), 'one case'))
            out.append(a)
        return out

    def alphabet(self, ex, a):
        a.quant(Quant(add(self.p, 1), self.n, lambda j: keep(dec8(ex, self.at(j)) != bv(8, 255)), 'alphabet'))

    def total(self):
        return add(self.n, self.p)           # number of values: 2p+1 + (n-p-1)


@register
class Bech32Decode(Contract):
    """accepts exactly the BIP 173 texts whose human-readable part fits; returns its lower case and the values"""
    name = 'fingera_bech32_decode'

    def setup(self, ex, st):
        c = Ctx()
        c.n = size_param(ex, st, 'str_len', 0, 1 << 61)
        c.s, c.f = in_buf(ex, st, 'str', c.n)
        c.cap = size_param(ex, st, 'hrp_size', 0, (1 << 61))
        c.T = Text(ex, st, c.f, c.n)
        c.hrp = out_buf(ex, st, 'hrp', c.cap)
        c.hsz = out_buf(ex, st, 'hrp_size', 8)
        ex.store(st, Ptr(c.hsz, 0), U(64, c.cap), 8, 'set-up')
        # the announced capacity: str_len - 7 values
        cap = If(le(7, c.n), sub(c.n, 7), 0)
        c.b = out_buf(ex, st, 'b32', cap)
        c.fold = Polymod(c.T.values(ex), c.T.bases())
        ex.folds = [c.fold]
        return [Ptr(c.s, 0), U(64, c.n), Ptr(c.hrp, 0), Ptr(c.hsz, 0), Ptr(c.b, 0)], c

    def post(self, ex, st, ret, c):
        T = c.T
        n, p = c.n, T.p
        r = as_s(ret)
        P = lambda s: as_bv(c.fold.value(ex, s, T.total()))
        # accepted
        s = st.copy()
        s.add(le(0, r))
        if ex.feasible(s, z3.BoolVal(True)):
            ex.oblige(s, And(le(n, 90), le(1, p), le(add(p, 7), n)), 'accepted: length, human-readable part, separator')
            ex.oblige(s, le(p, c.cap), 'accepted: the human-readable part fits')
            ex.oblige(s, eq(r, sub(sub(n, p), 7)), 'accepted: number of values')
            ex.oblige(s, eq(as_u(ex.load(s, Ptr(c.hsz, 0), ir.INT(64))), p), 'accepted: length of the human-readable part')
            a = s.copy()
            j = skolem(ex, a, 'j', 0, n)
            ex.oblige(a, keep(printable(T.at(j))), 'accepted: every character is printable')
            b = a.copy()
            i = skolem(ex, b, 'i', 0, n)
            ex.oblige(b, keep(z3.Not(z3.And(is_up(T.at(i)), is_low(T.at(j))))), 'accepted: no mixed case')
            a = s.copy()
            j = skolem(ex, a, 'j', 0, r)
            if j is not None:
                ex.oblige(a, keep(dec8(ex, T.at(add(add(p, 1), j))) != bv(8, 255)), 'accepted: data characters are of the alphabet')
            for i in range(6):
                ex.oblige(s, keep(dec8(ex, T.at(add(sub(n, 6), i))) != bv(8, 255)), 'accepted: checksum characters are of the alphabet')
            a = s.copy()
            j = skolem(ex, a, 'j', 0, p)
            ex.oblige(a, keep(bv8(ex, a, c.hrp, j) == lower8(T.at(j))), 'accepted: the human-readable part in lower case')
            a = s.copy()
            j = skolem(ex, a, 'j', 0, r)
            if j is not None:
                ex.oblige(a, keep(bv8(ex, a, c.b, j) == dec8(ex, T.at(add(add(p, 1), j)))), 'accepted: data values')
            a = s.copy()
            ex.oblige(a, keep(P(a) == bv(32, 1)), 'accepted: the checksum is valid')
        # refused
        s = st.copy()
        s.add(lt(r, 0))
        if ex.feasible(s, z3.BoolVal(True)):
            for a, g in zip(T.well_formed(s), ('lower', 'upper')):
                a.add(le(p, c.cap))
                T.alphabet(ex, a)
                a.add(keep(P(a) == bv(32, 1)))
                inst_apps(a, c.f)
                ex.oblige(a, False, 'a valid text without %s case letters is not refused' % ('upper' if g == 'lower' else 'lower'))

    def call(self, ex, st, v):
        """accepted exactly when the text is valid and its human-readable part fits; a refused text leaves the outputs arbitrary"""
        n = as_u(v[1])
        ex.rw_ok(st, v[0], n, 'text of ' + self.name, False)
        ex.rw_ok(st, v[3], 8, 'size of ' + self.name, True)
        cap = as_u(ex.load(st, v[3], ir.INT(64)))
        dcap = If(le(7, n), sub(n, 7), 0)
        ex.rw_ok(st, v[2], cap, 'prefix output of ' + self.name, True)
        ex.rw_ok(st, v[4], dcap, 'value output of ' + self.name, True)
        rs = [x.r for x in (v[0], v[2], v[3], v[4]) if x.r is not None]
        if len(set(rs)) != len(rs):
            raise Unsupported('overlapping buffers')
        T = hash_of(ex, st, 'bech32_text', Bech, mem_seq(ex, st, v[0], n))
        h, d = bech_facts(st, T, n)
        good = And(keep(BOK(T)), le(h, cap))
        outs = []
        for acc in (True, False):
            s = st.copy()
            s.add(good if acc else Not(good))
            if not ex.feasible(s, z3.BoolVal(True)):
                continue
            if acc:
                write_str(ex, s, v[2], BHRP(T), h, cap, 'prefix of ' + self.name)
                if v[4].r is not None:
                    write_str(ex, s, v[4], BDATA(T), d, dcap, 'values of ' + self.name, 5)
                ex.store(s, v[3], U(64, h), 8, 'size of ' + self.name)
                outs.append((s, S(32, d)))
                continue
            for p, k in ((v[2], cap), (v[4], dcap)):
                if p.r is not None:
                    node, _ = ex.byte_base('after', False)
                    s.mem[p.r] = Range(s.mem[p.r], p.off, add(p.off, k), lambda s2, m, node=node: node.fn(s2, m))
            ex.store(s, v[3], U(64, ex.newint(s, 'hrp_size', 0, (1 << 64) - 1)), 8, 'size of ' + self.name)
            outs.append((s, S(32, ex.newint(s, 'refused', -(1 << 31), -1))))
        return outs
