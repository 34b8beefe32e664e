"""Contracts of btc/base58_check.c over those of base58.c and the double SHA-256."""
from .contract import *
from .seq import *

MAXIN = 1500000000


def checksum(ex, st, seq):
    """the first four bytes of the double SHA-256"""
    D = hash_of(ex, st, 'sha256', 256, bv_seq(hash_of(ex, st, 'sha256', 256, seq)))
    return keep(z3.Extract(255, 224, D))


def digits58(m):
    """most characters of the base58 text of m bytes: the least k with 256^m <= 58^k"""
    k = m
    while 256 ** m > 58 ** k:
        k += 1
    return k


def cap58(n):
    return add(idiv(mul(n, 138), 100), 2)


@register
class ToCheck(Contract):
    """str = base58(prefix || data || first four bytes of SHA-256(SHA-256(prefix || data)))"""
    name = 'fingera_to_base58_check'
    uses = ('fingera_to_base58', 'fingera_btc_hash256')

    def setup(self, ex, st):
        c = Ctx()
        c.n = size_param(ex, st, 'buf_size', 0, MAXIN // 2)
        c.p = size_param(ex, st, 'prefix_size', 0, MAXIN // 2 - 4)
        c.buf, c.f = in_buf(ex, st, 'buf', c.n)
        c.pre, c.g = in_buf(ex, st, 'prefix', c.p)
        c.str = out_buf(ex, st, 'str', cap58(add(add(c.n, c.p), 4)))
        ex.secret_heap = ('*',)
        return [Ptr(c.buf, 0), U(64, c.n), Ptr(c.pre, 0), U(64, c.p), Ptr(c.str, 0)], c

    def post(self, ex, st, ret, c):
        m = cat_seq(fn_seq(c.g, c.p), fn_seq(c.f, c.n))
        D = hash_of(ex, st, 'base58', String, cat_seq(m, bv_seq(checksum(ex, st, m))))
        ex.oblige(st, eq(as_u(ret), keep(LEN(D))), 'length of the base58 text of prefix, data and checksum')
        j = skolem(ex, st, 'j', 0, keep(LEN(D)))
        if j is not None:
            ex.oblige(st, keep(bv8(ex, st, c.str, j) == CHR(D, ival(j))), 'base58 text of prefix, data and checksum')

    def call(self, ex, st, v):
        n, p = as_u(v[1]), as_u(v[3])
        ex.rw_ok(st, v[0], n, 'data of ' + self.name, False)
        ex.rw_ok(st, v[2], p, 'prefix of ' + self.name, False)
        ex.oblige(st, And(le(n, MAXIN // 2), le(p, MAXIN // 2 - 4)), 'sizes of ' + self.name)
        if v[4].r is not None and v[4].r in (v[0].r, v[2].r):
            raise Unsupported('overlapping buffers')
        D = hash_of(ex, st, 'base58check', String, cat_seq(mem_seq(ex, st, v[2], p), mem_seq(ex, st, v[0], n)))
        m = add(add(n, p), 4)
        cap = cap58(m)
        L = str_len(st, D, cap)
        st.add(Or(eq(m, 0), le(1, L)))          # lemma base58_length
        lo, hi = rng(m) if not isc(m) else (m, m)
        if hi is not None and hi <= 128:
            # lemma base58_length: leading zeros only shorten the rest
            for k in range(max(lo or 0, 0), hi + 1):
                st.add(Implies(eq(m, k), le(L, digits58(k))))
        write_str(ex, st, v[4], D, L, L, 'text of ' + self.name)
        return [(st, U(64, L))]


@register
class FromCheck(Contract):
    """accepted exactly when the text decodes to at least four bytes ending in the checksum of the bytes before"""
    name = 'fingera_from_base58_check'
    uses = ('fingera_from_base58', 'fingera_btc_hash256')

    def setup(self, ex, st):
        c = Ctx()
        c.n = size_param(ex, st, 'str_len', 0, (1 << 31) - 1)
        c.s, c.f = in_buf(ex, st, 'str', c.n)
        c.buf = out_buf(ex, st, 'buf', c.n)
        ex.secret_heap = ('*',)
        return [Ptr(c.s, 0), U(64, c.n), Ptr(c.buf, 0)], c

    def post(self, ex, st, ret, c):
        D = hash_of(ex, st, 'from_base58', String, fn_seq(c.f, c.n))
        L = keep(LEN(D))
        s = st.copy()
        s.add(lt(L, 4))
        if ex.feasible(s, z3.BoolVal(True)):
            ex.oblige(s, eq(as_u(ret), 0), 'fewer than four bytes are refused')
        st.add(le(4, L))
        if not ex.feasible(st, z3.BoolVal(True)):
            return
        k = sub(L, 4)
        H = checksum(ex, st, str_seq(D, k))
        tail = concat([keep(CHR(D, ival(add(k, j)))) for j in range(4)])
        good = keep(tail == H)
        s = st.copy()
        s.add(Not(good))
        if ex.feasible(s, z3.BoolVal(True)):
            ex.oblige(s, eq(as_u(ret), 0), 'a wrong checksum is refused')
        st.add(good)
        if not ex.feasible(st, z3.BoolVal(True)):
            return
        ex.oblige(st, eq(as_u(ret), k), 'a matching checksum is accepted')
        j = skolem(ex, st, 'j', 0, k)
        if j is not None:
            ex.oblige(st, keep(bv8(ex, st, c.buf, j) == CHR(D, ival(j))), 'the bytes before the checksum are returned')

    def call(self, ex, st, v):
        n = as_u(v[1])
        ex.rw_ok(st, v[0], n, 'text of ' + self.name, False)
        ex.oblige(st, lt(n, 1 << 31), 'text size of ' + self.name)
        if v[0].r == v[2].r and v[0].r is not None:
            raise Unsupported('overlapping buffers')
        D = hash_of(ex, st, 'from_base58check', String, mem_seq(ex, st, v[0], n))
        L = str_len(st, D, n)
        st.add(Or(eq(L, 0), le(add(L, 4), n)))
        write_str(ex, st, v[2], D, L, n, 'output of ' + self.name)
        return [(st, U(64, L))]
