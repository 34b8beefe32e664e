"""Contracts of base32.c and base64.c: RFC 4648 as bit strings (blocks of CB characters of B bits <-> BB bytes)."""
from .contract import *
from .seq import hash_of, mem_seq, String, LEN, write_str


def bv(w, v):
    return z3.BitVecVal(v, w)


def seg(c, lo, hi):
    return z3.And(z3.UGE(c, lo), z3.ULE(c, hi))


# ---- alphabets, written from RFC 4648 (value -> character, character -> value / validity)
def enc32(x):
    return z3.If(z3.ULT(x, 26), x + 0x61, x - 26 + 0x32)


def ok32(c):
    return z3.Or(seg(c, 0x41, 0x5a), seg(c, 0x61, 0x7a), seg(c, 0x32, 0x37))


def dec32(c):
    return z3.If(z3.ULE(c, 0x37), c - 0x32 + 26, z3.If(z3.ULE(c, 0x5a), c - 0x41, c - 0x61))


def enc64(p, q):
    def f(x):
        return z3.If(z3.ULT(x, 26), x + 0x41, z3.If(z3.ULT(x, 52), x - 26 + 0x61, z3.If(z3.ULT(x, 62), x - 52 + 0x30,
                     z3.If(x == 62, bv(8, p), bv(8, q)))))
    return f


def ok64(p, q):
    return lambda c: z3.Or(seg(c, 0x41, 0x5a), seg(c, 0x61, 0x7a), seg(c, 0x30, 0x39), c == p, c == q)


def dec64(p, q):
    return lambda c: z3.If(c == p, bv(8, 62), z3.If(c == q, bv(8, 63), z3.If(z3.ULE(c, 0x39), c - 0x30 + 52,
                           z3.If(z3.ULE(c, 0x5a), c - 0x41, c - 0x61 + 26))))


ALPHA = {
    'b32': dict(B=5, CB=8, BB=5, enc=enc32, ok=ok32, dec=dec32, pad=True),
    'raw': dict(B=5, CB=8, BB=5, enc=lambda x: x, ok=lambda c: z3.ULT(c, 32), dec=lambda c: c, pad=False),
    'std': dict(B=6, CB=4, BB=3, enc=enc64(0x2b, 0x2f), ok=ok64(0x2b, 0x2f), dec=dec64(0x2b, 0x2f), pad=True),
    'url': dict(B=6, CB=4, BB=3, enc=enc64(0x2d, 0x5f), ok=ok64(0x2d, 0x5f), dec=dec64(0x2d, 0x5f), pad=False),
}


def group(A, bytes_, d):
    """d-th B-bit group of a block of BB bytes, as an 8-bit value"""
    w = 8 * A['BB']
    x = z3.Concat(*bytes_)
    hi = w - 1 - A['B'] * d
    return z3.ZeroExt(8 - A['B'], z3.Extract(hi, hi - A['B'] + 1, x))


def ungroup(A, vals, d):
    """d-th byte of a block of CB groups"""
    x = z3.Concat(*[z3.Extract(A['B'] - 1, 0, v) for v in vals])
    w = A['CB'] * A['B']
    hi = w - 1 - 8 * d
    return z3.Extract(hi, hi - 7, x)


def nchars(A, r):
    """characters carrying r (< BB) trailing bytes"""
    return -(-8 * r // A['B'])


def nbytes(A, t):
    """bytes carried by t (< CB) trailing characters; 0 when no encoder produces t characters"""
    r = t * A['B'] // 8
    return r if nchars(A, r) == t else 0


def enc_len(A, n):
    """encoded length"""
    if A['pad']:
        return mul(idiv(add(n, A['BB'] - 1), A['BB']), A['CB'])
    r = imod(n, A['BB'])
    e = 0
    for i in range(1, A['BB']):
        e = If(eq(r, i), nchars(A, i), e)
    return add(mul(idiv(n, A['BB']), A['CB']), e)


def dec_len(A, n):
    r = imod(n, A['CB'])
    e = 0
    for i in range(1, A['CB']):
        e = If(eq(r, i), nbytes(A, i), e)
    return add(mul(idiv(n, A['CB']), A['BB']), e)


def enc_char(A, f, n, j, d):
    """character d of block j of the encoding of f[0..n): (defined, char, is_padding)"""
    bs = []
    for i in range(A['BB']):
        o = add(mul(j, A['BB']), i)
        x = f(ival(o))
        c = lt(o, n)
        bs.append(x if c is True else z3.If(zb(c), x, bv(8, 0)))
    rest = sub(n, mul(j, A['BB']))          # bytes from this block on
    # character d carries bits iff 8*rest > B*d
    real = lt(A['B'] * d, mul(rest, 8))
    return real, A['enc'](group(A, bs, d))


def distinct(p, q):
    if p.r == q.r and p.r is not None:
        raise Unsupported('overlapping buffers')


class Encode(Contract):
    alpha = ''
    returns = False

    def setup(self, ex, st):
        c = Ctx()
        A = c.A = ALPHA[self.alpha]
        c.n = size_param(ex, st, 'buf_size')
        c.buf, c.f = in_buf(ex, st, 'buf', c.n)
        c.len = enc_len(A, c.n)
        c.out = out_buf(ex, st, 'out', c.len)
        return [Ptr(c.buf, 0), U(64, c.n), Ptr(c.out, 0)], c

    def post(self, ex, st, ret, c):
        A = c.A
        if self.returns:
            ex.oblige(st, eq(as_u(ret), c.len), 'the returned size is the encoded size')
        nb = idiv(add(c.n, A['BB'] - 1), A['BB'])
        full = idiv(c.n, A['BB'])
        for what, lo, hi in (('full block', 0, full), ('last block', full, nb)):
            s = st.copy()
            j = skolem(ex, s, 'j', lo, hi)
            if j is None:
                continue
            for d in range(A['CB']):
                real, ch = enc_char(A, c.f, c.n, j, d)
                off = add(mul(j, A['CB']), d)
                for isreal in (True, False):
                    t = s.copy()
                    cnd = real if isreal else Not(real)
                    t.add(cnd)
                    if not ex.feasible(t, z3.BoolVal(True)):
                        continue
                    if isreal:
                        ex.oblige(t, bv8(ex, t, c.out, off) == ch, '%s: character %d' % (what, d))
                    elif A['pad']:
                        ex.oblige(t, bv8(ex, t, c.out, off) == 0x3d, '%s: padding at %d' % (what, d))


def blk_ok(A, f, j):
    return z3.And([A['ok'](f(ival(add(mul(j, A['CB']), i)))) for i in range(A['CB'])])


class Decode(Contract):
    alpha = ''

    def effective(self, ex, st, c):
        """length of the text before padding"""
        c.L = c.n

    def capacity(self, ex, st, c):
        return dec_len(c.A, c.L)

    def setup(self, ex, st):
        c = Ctx()
        A = c.A = ALPHA[self.alpha]
        c.n = size_param(ex, st, 'str_len')
        c.s, c.f = in_buf(ex, st, 'str', c.n)
        self.effective(ex, st, c)
        c.cap = self.capacity(ex, st, c)
        c.out = out_buf(ex, st, 'buf', c.cap)
        # facts about the scan of the tail are stated per character
        base = mul(idiv(c.L, A['CB']), A['CB'])
        c.tail0 = base
        for i in range(A['CB'] - 1):
            st.term(i)
        return [Ptr(c.s, 0), U(64, c.n), Ptr(c.out, 0)], c

    def post(self, ex, st, ret, c):
        A, f = c.A, c.f
        r = as_u(ret)
        nb = idiv(c.L, A['CB'])
        t = imod(c.L, A['CB'])
        q = idiv(r, A['BB'])
        ex.oblige(st, le(r, c.cap), 'the count is within the documented capacity')
        # either a bad block stops the decoding at a block boundary, or all blocks are good and the tail decides
        tail_ok = {}
        for x in range(1, A['CB']):
            tail_ok[x] = z3.And([A['ok'](f(ival(add(mul(nb, A['CB']), i)))) for i in range(x)])
        want = 0
        for x in range(1, A['CB']):
            if nbytes(A, x):
                want = If(z3.And(ival(t) == x, tail_ok[x]), nbytes(A, x), want)
        stop = And(lt(q, nb), eq(r, mul(q, A['BB'])), z3.Not(blk_ok(A, f, q)))
        done = eq(r, add(mul(nb, A['BB']), want))
        ex.oblige(st, Or(stop, done), 'the count ends at the first bad block, or at the tail')
        s = st.copy()
        j = skolem(ex, s, 'j', 0, nb)
        if j is not None:
            s.add(le(add(mul(j, A['BB']), A['BB']), r))
            if ex.feasible(s, z3.BoolVal(True)):
                ex.oblige(s, blk_ok(A, f, j), 'every decoded block consists of alphabet characters')
                vals = [A['dec'](f(ival(add(mul(j, A['CB']), i)))) for i in range(A['CB'])]
                for d in range(A['BB']):
                    ex.oblige(s, bv8(ex, s, c.out, add(mul(j, A['BB']), d)) == ungroup(A, vals, d), 'byte %d of a decoded block' % d)
        for x in range(1, A['CB']):
            k = nbytes(A, x)
            if not k:
                continue
            s = st.copy()
            s.add(eq(t, x))
            s.add(eq(r, add(mul(nb, A['BB']), k)))
            if not ex.feasible(s, z3.BoolVal(True)):
                continue
            vals = [A['dec'](f(ival(add(mul(nb, A['CB']), i)))) if i < x else bv(8, 0) for i in range(A['CB'])]
            for d in range(k):
                ex.oblige(s, bv8(ex, s, c.out, add(mul(nb, A['BB']), d)) == ungroup(A, vals, d), 'byte %d of a tail of %d characters' % (d, x))


class PaddedDecode(Decode):
    """base32: the text ends at the first '='"""

    def effective(self, ex, st, c):
        L = ex.newint(st, 'L', 0, None)
        st.add(le(L, c.n))
        f = c.f
        st.quant(Quant(0, L, lambda j: f(ival(j)) != 0x3d, 'no = before L'))
        st.add(Or(eq(L, c.n), f(ival(L)) == 0x3d))
        st.term(L)
        c.L = L


class Std64Decode(Decode):
    def effective(self, ex, st, c):
        f, n = c.f, c.n
        l1 = z3.And(ival(n) > 0, f(ival(sub(n, 1))) == 0x3d)
        l2 = z3.And(ival(n) > 1, f(ival(sub(n, 2))) == 0x3d)
        k = keep(z3.If(l1, z3.If(l2, z3.IntVal(2), z3.IntVal(1)), z3.IntVal(0)))
        L = ex.newint(st, 'L', 0, None)
        st.add(eq(L, sub(n, k)))
        c.L = L


@register
class ToB32(Encode):
    name, alpha = 'fingera_to_base32', 'b32'


@register
class ToB32Raw(Encode):
    name, alpha, returns = 'fingera_to_base32_raw', 'raw', True

    def call(self, ex, st, v):
        """ceil(8n/5) values below 32"""
        n = as_u(v[1])
        ex.rw_ok(st, v[0], n, 'data of ' + self.name, False)
        distinct(v[0], v[2])
        D = hash_of(ex, st, 'to_base32_raw', String, mem_seq(ex, st, v[0], n))
        L = enc_len(ALPHA['raw'], n)
        st.add(eq(keep(LEN(D)), L))
        write_str(ex, st, v[2], D, L, L, 'output of ' + self.name, 5)
        return [(st, U(64, L))]


@register
class ToB64(Encode):
    name, alpha = 'fingera_to_base64', 'std'


@register
class ToB64Url(Encode):
    name, alpha = 'fingera_to_base64_urlsafe', 'url'


@register
class FromB32(PaddedDecode):
    name, alpha = 'fingera_from_base32', 'b32'


@register
class FromB32Raw(Decode):
    name, alpha = 'fingera_from_base32_raw', 'raw'

    def call(self, ex, st, v):
        """values below 32 give floor(5n/8) bytes"""
        n = as_u(v[1])
        ex.rw_ok(st, v[0], n, 'values of ' + self.name, False)
        distinct(v[0], v[2])
        s = st.copy()
        src = mem_seq(ex, st, v[0], n)
        j = skolem(ex, s, 'j', 0, n)
        if j is not None:
            ex.oblige(s, keep(z3.ULT(as_bv(src.fn(s, j)), bv(8, 32))), 'values of %s are below 32' % self.name)
        D = hash_of(ex, st, 'from_base32_raw', String, src)
        L = dec_len(ALPHA['raw'], n)
        st.add(eq(keep(LEN(D)), L))
        write_str(ex, st, v[2], D, L, L, 'output of ' + self.name)
        return [(st, U(64, L))]


@register
class FromB64(Std64Decode):
    name, alpha = 'fingera_from_base64', 'std'


@register
class FromB64Url(Decode):
    name, alpha = 'fingera_from_base64_urlsafe', 'url'


@register
class B32Len(PaddedDecode):
    name, alpha = 'fingera_from_base32_length', 'b32'

    def setup(self, ex, st):
        args, c = Decode.setup(self, ex, st)
        return args[:2], c

    def post(self, ex, st, ret, c):
        ex.oblige(st, eq(as_u(ret), c.cap), 'the announced size is the capacity needed')


@register
class B32RawLen(Contract):
    name = 'fingera_from_base32_raw_length'

    def setup(self, ex, st):
        c = Ctx()
        c.n = size_param(ex, st, 'str_len')
        return [U(64, c.n)], c

    def post(self, ex, st, ret, c):
        ex.oblige(st, eq(as_u(ret), dec_len(ALPHA['raw'], c.n)), 'the announced size is the capacity needed')
