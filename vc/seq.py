"""Byte sequences in symbolic memory and hash values of them.

A hash value of a sequence of concrete length n is an uninterpreted function of its n bytes; of a sequence of symbolic length
it is a fresh constant, and every pair of such constants on a path is related by extensionality: equal lengths and equal
bytes (at an arbitrary witness position) imply equal values."""
import z3
from .arith import *


class Seq:
    def __init__(self, fn, n):
        self.fn, self.n = fn, n        # fn(st, i) -> IV8

    def term(self, ex, st):
        return concat([as_bv(self.fn(st, i)) for i in range(self.n)])


def mem_seq(ex, st, p, n):
    if p.r is None:
        return Seq(lambda s, i: C(8, 0), n)
    node, off = st.mem[p.r], p.off
    return Seq(lambda s, i: ex.read8(s, node, add(off, i)), n)


def bv_seq(t):
    """bytes of a bit vector, most significant first"""
    n = t.size() // 8

    def fn(st, i):
        if isc(i):
            return BV(8, extract(8 * (n - i) - 1, 8 * (n - i) - 8, t))
        e = z3.BitVecVal(0, 8)
        for j in range(n):
            e = z3.If(ival(i) == j, z3.Extract(8 * (n - j) - 1, 8 * (n - j) - 8, t), e)
        return BV(8, keep(e))
    return Seq(fn, n)


def const_seq(b):
    def fn(st, i):
        if isc(i):
            return C(8, b[i])
        e = z3.BitVecVal(0, 8)
        for j in range(len(b)):
            e = z3.If(ival(i) == j, z3.BitVecVal(b[j], 8), e)
        return BV(8, keep(e))
    return Seq(fn, len(b))


def fn_seq(f, n):
    """bytes of an input block's content function"""
    return Seq(lambda s, i: IV(8, 'b', keep(f(ival(i)))), n)


def cat_seq(*ss):
    """concatenation"""
    if len(ss) == 1:
        return ss[0]
    a, b = ss[0], cat_seq(*ss[1:])
    n = a.n

    def fn(st, i, a=a, b=b):
        c = lt(i, n)
        if c is True:
            return a.fn(st, i)
        if c is False:
            return b.fn(st, sub(i, n))
        x, y = a.fn(st, i), b.fn(st, sub(i, n))
        return BV(8, keep(z3.If(c, as_bv(x), as_bv(y))))
    return Seq(fn, add(n, b.n))


MAXN = 200


def hash_of(ex, st, name, bits, *seqs):
    """the value of function `name` on the sequences: a bit vector of `bits` bits, or an element of the sort `bits`"""
    sort = bits if isinstance(bits, z3.SortRef) else z3.BitVecSort(bits)
    if all(isc(s.n) and s.n <= MAXN for s in seqs):
        ts = [s.term(ex, st) for s in seqs if s.n]
        nm = name + ''.join('_%d' % s.n for s in seqs)
        f = z3.Function(nm, *([t.sort() for t in ts] + [sort]))
        D = keep(f(*ts)) if ts else keep(z3.Const(nm, sort))
    else:
        D = None
        for (nm, ss, d) in st.g.get('inst', ()):
            if nm == name and len(ss) == len(seqs) and all(x is y for x, y in zip(ss, seqs)):
                return d
        D = keep(z3.Const('%s!%d' % (name, fresh_id()), sort))
    for (nm, ss, d) in st.g.get('inst', ()):
        if nm != name or (all(isc(s.n) for s in ss) and all(isc(s.n) for s in seqs)):
            continue
        diff = []
        for x, y in zip(ss, seqs):
            l = eq(x.n, y.n)
            if l is False:
                diff = None
                break
            if isc(x.n) and isc(y.n):
                diff.append(keep(x.term(ex, st) != y.term(ex, st)))
                continue
            w = ex.newint(st, 'witness', 0, None)
            s2 = st.copy()
            s2.add(l)
            s2.add(lt(w, x.n))
            if not ex.feasible(s2, z3.BoolVal(True)):
                diff.append(Not(l))
                continue
            n0 = len(s2.pc)
            d1, d2 = as_bv(x.fn(s2, w)), as_bv(y.fn(s2, w))
            facts = s2.pc[n0:]
            for q in facts:
                st.add(Implies(And(l, lt(w, x.n)), q))
            diff.append(Or(Not(l), And(lt(w, x.n), keep(d1 != d2))))
        if diff is None:
            continue
        st.add(Or(keep(d == D), *diff))
    st.g['inst'] = st.g.get('inst', ()) + ((name, tuple(seqs), D),)
    return D


# ---------------------------------------------------------------- byte strings as values (results of text conversions)
String = z3.DeclareSort('String')
LEN = z3.Function('len', String, z3.IntSort())
CHR = z3.Function('char', String, z3.IntSort(), z3.BitVecSort(8))


def str_len(st, D, hi):
    """its length, at most hi"""
    n = keep(LEN(D))
    st.add(keep(n >= 0))
    st.add(le(n, hi))
    _, h = rng(hi) if not isc(hi) else (0, hi)
    b = BOUNDS.get(n.get_id(), (0, None))
    if not isc(hi) or b[1] is None:
        bound(n, 0, b[1])
    return n


def char(D, i, bits=8):
    """character i of D; bits=5 for strings whose characters are below 32"""
    if bits == 8:
        return keep(CHR(D, ival(i)))
    return keep(z3.ZeroExt(8 - bits, z3.Extract(bits - 1, 0, CHR(D, ival(i)))))


def str_seq(D, n, bits=8, skip=0):
    """the characters of D from `skip` on; n of them"""
    return Seq(lambda s, i: BV(8, char(D, add(i, skip), bits)), n)


def write_str(ex, st, p, D, n, cap, what, bits=8):
    """store the n = len(D) bytes of D at p; up to cap bytes may be touched"""
    from .engine import Range
    ex.rw_ok(st, p, cap, what, True)
    if p.r is None:
        return
    node, _ = ex.byte_base('after', False)
    st.mem[p.r] = Range(Range(st.mem[p.r], p.off, add(p.off, cap), lambda s, m: node.fn(s, m)), p.off, add(p.off, n),
                        lambda s, m: BV(8, char(D, sub(m, p.off), bits)))


def write_bv(ex, st, p, t, what):
    """store the bytes of t, most significant first"""
    from .engine import Store
    n = t.size() // 8
    ex.rw_ok(st, p, n, what, True)
    if p.r is None:
        return
    for i in range(n):
        ex_b = BV(8, extract(8 * (n - i) - 1, 8 * (n - i) - 8, t))
        st.mem[p.r] = Store(st.mem[p.r], add(p.off, i), 1, ex_b)


def read_bv(ex, st, p, n):
    """n bytes at p, the first one most significant"""
    bs = [as_bv(ex.read8(st, st.mem[p.r], add(p.off, i))) for i in range(n)]
    return concat(bs) if n > 1 else bs[0]
