"""Canonical form of 32/64-bit words built from additions modulo 2^w and bitwise operations.

A word is a tuple of bits, a bit is a Boolean polynomial over GF(2) (algebraic normal form: a set of monomials), and every
modular sum is flattened to a multiset of canonical words plus a constant; the sum's own bits are variables named by that
multiset.  Equal canonical forms imply equal words (for every input); the converse may fail, in which case the caller falls
back to SMT."""
import random
import z3

MAXMON = 80


class Big(Exception):
    pass


class Anf:
    def __init__(self):
        self.vars = {}
        self.sums = {}       # word (tuple) of a sum atom -> (terms, const)
        self.memo = {}
        self.keep = []
        self.zero = frozenset()
        self.one = frozenset([frozenset()])
        self.polys = {}

    def var(self, key):
        v = self.vars.get(key)
        if v is None:
            v = len(self.vars)
            self.vars[key] = v
        return frozenset([frozenset([v])])

    def intern(self, p):
        return self.polys.setdefault(p, p)

    def bxor(self, a, b):
        if not a:
            return b
        if not b:
            return a
        return self.intern(a ^ b)

    def band(self, a, b):
        if not a or not b:
            return self.zero
        if a == self.one:
            return b
        if b == self.one:
            return a
        if a is b or a == b:
            return a
        if len(a) * len(b) > 4 * MAXMON:
            raise Big()
        r = set()
        for x in a:
            for y in b:
                r ^= {x | y}
        if len(r) > MAXMON:
            raise Big()
        return self.intern(frozenset(r))

    def bor(self, a, b):
        return self.bxor(self.bxor(a, b), self.band(a, b))

    def const(self, v, w):
        return tuple(self.one if v >> i & 1 else self.zero for i in range(w))

    def isconst(self, wd):
        v = 0
        for i, b in enumerate(wd):
            if b == self.one:
                v |= 1 << i
            elif b:
                return None
        return v

    def sum(self, parts, w):
        """parts: (coefficient, word)"""
        M = 1 << w
        terms, const = {}, 0
        for c, wd in parts:
            v = self.isconst(wd)
            if v is not None:
                const += c * v
                continue
            s = self.sums.get(wd)
            if s is not None:
                for t, k in s[0]:
                    terms[t] = terms.get(t, 0) + c * k
                const += c * s[1]
            else:
                terms[wd] = terms.get(wd, 0) + c
        const %= M
        terms = {t: k % M for t, k in terms.items() if k % M}
        if not terms:
            return self.const(const, w)
        if const == 0 and len(terms) == 1:
            (t, k), = terms.items()
            if k == 1:
                return t
        key = (frozenset(terms.items()), const)
        if w == 64:          # the low half is named by the 32-bit sum of the low halves
            lo = self.sum([(k, t[:32]) for t, k in terms.items()] + [(1, self.const(const & 0xffffffff, 32))], 32)
        else:
            lo = ()
        wd = lo + tuple(self.var((key, i)) for i in range(len(lo), w))
        self.sums[wd] = key
        return wd

    def word(self, e):
        """canonical word of a z3 bit vector (iterative over the DAG)"""
        stack = [e]
        memo = self.memo
        while stack:
            x = stack[-1]
            xi = x.get_id()
            if xi in memo:
                stack.pop()
                continue
            k = x.decl().kind()
            ch = x.children() if k in OPS else []
            todo = [c for c in ch if z3.is_bv(c) and c.get_id() not in memo]
            if todo:
                stack.extend(todo)
                continue
            self.keep.append(x)
            memo[xi] = self.node(x, k, [memo[c.get_id()] if z3.is_bv(c) else c for c in ch])
            stack.pop()
        return memo[e.get_id()]

    def node(self, x, k, c):
        w = x.size()
        if k == z3.Z3_OP_BNUM:
            return self.const(x.as_long(), w)
        if k == z3.Z3_OP_BADD:
            return self.sum([(1, y) for y in c], w)
        if k == z3.Z3_OP_BSUB:
            return self.sum([(1, c[0])] + [(-1, y) for y in c[1:]], w)
        if k == z3.Z3_OP_BNEG:
            return self.sum([(-1, c[0])], w)
        if k == z3.Z3_OP_BMUL and len(c) == 2:
            for p, q in ((0, 1), (1, 0)):
                v = self.isconst(c[p])
                if v is not None:
                    return self.sum([(v, c[q])], w)
            raise Big()
        if k == z3.Z3_OP_BXOR:
            r = c[0]
            for y in c[1:]:
                r = tuple(self.bxor(a, b) for a, b in zip(r, y))
            return r
        if k == z3.Z3_OP_BAND:
            r = c[0]
            for y in c[1:]:
                r = tuple(self.band(a, b) for a, b in zip(r, y))
            return r
        if k == z3.Z3_OP_BOR:
            r = c[0]
            for y in c[1:]:
                r = tuple(self.bor(a, b) for a, b in zip(r, y))
            return r
        if k == z3.Z3_OP_BNOT:
            return tuple(self.bxor(a, self.one) for a in c[0])
        if k in (z3.Z3_OP_BSHL, z3.Z3_OP_BLSHR, z3.Z3_OP_BASHR):
            n = self.isconst(c[1])
            if n is None:
                raise Big()
            n = min(n, w)
            if k == z3.Z3_OP_BSHL:
                return (self.zero,) * n + c[0][:w - n]
            f = self.zero if k == z3.Z3_OP_BLSHR else c[0][-1]
            return c[0][n:] + (f,) * n
        if k == z3.Z3_OP_ROTATE_LEFT:
            n = x.params()[0] % w
            return c[0][w - n:] + c[0][:w - n]
        if k == z3.Z3_OP_ROTATE_RIGHT:
            n = x.params()[0] % w
            return c[0][n:] + c[0][:n]
        if k == z3.Z3_OP_CONCAT:
            r = ()
            for y in reversed(c):
                r = r + y
            return r
        if k == z3.Z3_OP_EXTRACT:
            hi, lo = x.params()
            return c[0][lo:hi + 1]
        if k == z3.Z3_OP_ZERO_EXT:
            return c[0] + (self.zero,) * (w - len(c[0]))
        if k == z3.Z3_OP_SIGN_EXT:
            return c[0] + (c[0][-1],) * (w - len(c[0]))
        if k == z3.Z3_OP_ITE:
            q = self.var(('cond', x.arg(0).get_id()))
            n = self.bxor(q, self.one)
            return tuple(self.bor(self.band(q, a), self.band(n, b)) if a != b else a for a, b in zip(c[-2], c[-1]))
        return tuple(self.var((x.get_id(), i)) for i in range(w))


OPS = {z3.Z3_OP_BADD, z3.Z3_OP_BSUB, z3.Z3_OP_BNEG, z3.Z3_OP_BMUL, z3.Z3_OP_BXOR, z3.Z3_OP_BAND, z3.Z3_OP_BOR, z3.Z3_OP_BNOT,
       z3.Z3_OP_BSHL, z3.Z3_OP_BLSHR, z3.Z3_OP_BASHR, z3.Z3_OP_ROTATE_LEFT, z3.Z3_OP_ROTATE_RIGHT, z3.Z3_OP_CONCAT,
       z3.Z3_OP_EXTRACT, z3.Z3_OP_ZERO_EXT, z3.Z3_OP_SIGN_EXT, z3.Z3_OP_ITE}


def leaves(*es):
    seen, out, stack = set(), [], list(es)
    while stack:
        x = stack.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        k = x.decl().kind()
        if k in OPS:
            stack.extend(c for c in x.children() if z3.is_bv(c))
        elif k != z3.Z3_OP_BNUM:
            out.append(x)
    return out


def prove(anf, a, b):
    try:
        return anf.word(a) == anf.word(b)
    except Big:
        return None


def refute(a, b, rounds=4):
    """an assignment of the leaves under which the words differ (only meaningful for independent leaves)"""
    ls = leaves(a, b)
    rnd = random.Random(1)
    for _ in range(rounds):
        sub = [(l, z3.BitVecVal(rnd.getrandbits(l.size()), l.size())) for l in ls]
        x = z3.simplify(z3.substitute(a, *sub))
        y = z3.simplify(z3.substitute(b, *sub))
        if z3.is_bv_value(x) and z3.is_bv_value(y) and x.as_long() != y.as_long():
            return dict((str(l), v.as_long()) for l, v in sub)
    return None
