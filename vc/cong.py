"""Congruence: a large equality between terms built from uninterpreted functions is proved by matching applications
innermost first (arguments proved equal one by one by the solver), replacing matched applications by common constants, and
deciding what remains.  Every step is a proved equality under the path condition, so the result is sound."""
import z3
from .arith import *
from .arith import fresh_id

UF = z3.Z3_OP_UNINTERPRETED


def apps(e):
    """uninterpreted applications worth matching (bit-vector valued, >= 32 bits), innermost first"""
    out, seen, stack = [], set(), [(e, False)]
    while stack:
        x, done = stack.pop()
        if done:
            out.append(x)
            continue
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_app(x):
            if x.decl().kind() == UF and x.num_args() and z3.is_bv(x) and x.size() >= 32:
                stack.append((x, True))
            stack.extend((c, False) for c in x.children())
    return out


class Cong:
    def __init__(self, ex):
        self.ex = ex
        self.memo = {}
        self.consts, self.state, self.amemo = {}, {}, {}
        self.keep = []

    def equal(self, st, x, y, key):
        """x == y under the path condition?"""
        if x.eq(y):
            return True
        k = (x.get_id(), y.get_id(), key)
        r = self.memo.get(k)
        if r is None:
            r = self._equal(st, x, y, key)
            self.keep += [x, y]
            self.memo[k] = r
        return r

    def _equal(self, st, x, y, key):
        if z3.is_bv(x):
            if x.sort() != y.sort():
                return False
            w = x.size()
            if w > 8 and w % 8 == 0:
                xs, ys = pieces(x), pieces(y)
                if len(xs) > 1 or len(ys) > 1:
                    return all(self.equal(st, *self.split(x, xs, y, ys, i), key) for i in range(w // 8)) if not same(xs, ys) \
                        else all(self.equal(st, a, b, key) for a, b in zip(xs, ys))
            a, b = asint(x), asint(y)
            if a is not None and b is not None and self.equal(st, ival(a), ival(b), key):
                return True
        g = z3.simplify(x == y)
        if z3.is_true(g):
            return True
        if z3.is_false(g):
            return False
        r, _ = self.ex.check(st, z3.Not(g), 3000)
        return r == z3.unsat

    def split(self, x, xs, y, ys, i):
        return extract(8 * i + 7, 8 * i, x), extract(8 * i + 7, 8 * i, y)

    def const(self, e):
        c = self.consts.get(e.get_id())
        if c is None:
            c = z3.BitVec('app!%d' % fresh_id(), e.size())
            self.consts[e.get_id()] = c
            self.keep.append(e)
        return c

    def reduce(self, st, g):
        """g with matched applications replaced by constants"""
        key = tuple(c.get_id() for c in st.pc)
        self.keep.append(list(st.pc))
        a, b = g.arg(0), g.arg(1)
        sub, reps, done = self.state.setdefault(key, ([], [], {}))
        for e in self.apps(a) + self.apps(b):
            if e.get_id() in done:
                continue
            r = z3.substitute(e, *reversed(sub)) if sub else e
            k = None
            for (q, c) in reps:
                if q.eq(r) or (q.decl().eq(r.decl()) and all(self.equal(st, s, t, key) for s, t in zip(order(q), order(r)))):
                    k = c
                    break
            if k is None:
                k = self.const(r)
                reps.append((r, k))
            sub.append((e, k))
            done[e.get_id()] = e
        return z3.simplify(z3.substitute(g, *reversed(sub))), len(sub)

    def apps(self, e):
        r = self.amemo.get(e.get_id())
        if r is None:
            if e.decl().kind() in (z3.Z3_OP_EXTRACT, z3.Z3_OP_BLSHR, z3.Z3_OP_BSHL, z3.Z3_OP_BAND, z3.Z3_OP_BOR, z3.Z3_OP_CONCAT,
                                   z3.Z3_OP_BXOR):
                r, seen = [], set()
                for c in e.children():
                    for x in self.apps(c):
                        if x.get_id() not in seen:
                            seen.add(x.get_id())
                            r.append(x)
            else:
                r = apps(e)
            self.keep.append(e)
            self.amemo[e.get_id()] = r
        return r


def order(q):
    """arguments, the cheap (integer, small) ones first"""
    return sorted(q.children(), key=lambda c: (not z3.is_int(c), c.size() if z3.is_bv(c) else 0))


def pieces(x):
    if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_CONCAT:
        out = []
        for c in x.children():
            out += pieces(c)
        return out
    return [x]


def same(xs, ys):
    return len(xs) == len(ys) and all(a.size() == b.size() for a, b in zip(xs, ys))


def asint(x):
    """the value of (a byte of) an integer converted to a bit vector"""
    lo, w = 0, x.size()
    if x.decl().kind() == z3.Z3_OP_EXTRACT:
        lo = x.params()[1]
        x = x.arg(0)
    if z3.is_bv_value(x):
        return x.as_long() >> lo & ((1 << w) - 1)
    if x.decl().kind() != z3.Z3_OP_INT2BV:
        return None
    return imod(idiv(x.arg(0), 1 << lo), 1 << w)
