"""Contracts of hex.c (to_hex, from_hex)."""
from .contract import *
from . import hooks


def bv(w, v):
    return z3.BitVecVal(v, w)


def hexdigit(x, upper):
    """ASCII of a value 0..15 (8-bit)"""
    a = z3.If(upper, bv(8, 0x41), bv(8, 0x61))
    return z3.If(z3.ULT(x, 10), x + 0x30, a + (x - 10))


def is_hex(c):
    return z3.Or(z3.And(z3.UGE(c, 0x30), z3.ULE(c, 0x39)), z3.And(z3.UGE(c, 0x41), z3.ULE(c, 0x46)),
                 z3.And(z3.UGE(c, 0x61), z3.ULE(c, 0x66)))


def hexval(c):
    return z3.If(z3.ULE(c, 0x39), c - 0x30, z3.If(z3.ULE(c, 0x46), c - 0x37, c - 0x57))


@register
class ToHex(Contract):
    name = 'fingera_to_hex'

    def setup(self, ex, st):
        c = Ctx()
        c.n = size_param(ex, st, 'buf_size')
        c.buf, c.f = in_buf(ex, st, 'buf', c.n)
        c.str = out_buf(ex, st, 'str', mul(c.n, 2))
        c.upper = int_param(ex, st, 'upper')
        return [Ptr(c.buf, 0), U(64, c.n), Ptr(c.str, 0), c.upper], c

    def post(self, ex, st, ret, c):
        j = skolem(ex, st, 'j', 0, c.n)
        if j is None:
            return
        b = c.f(ival(j))
        up = as_bv(c.upper) != 0
        for d, x in ((0, z3.LShR(b, 4)), (1, b & 15)):
            ex.oblige(st, bv8(ex, st, c.str, add(mul(j, 2), d)) == hexdigit(x, up), 'str[2j+%d] is the hex digit' % d)


@register
class FromHex(Contract):
    name = 'fingera_from_hex'

    def setup(self, ex, st):
        c = Ctx()
        c.n = size_param(ex, st, 'str_len')
        c.s, c.f = in_buf(ex, st, 'str', c.n)
        c.out = out_buf(ex, st, 'buf', idiv(c.n, 2))
        return [Ptr(c.s, 0), U(64, c.n), Ptr(c.out, 0)], c

    def post(self, ex, st, ret, c):
        r = as_u(ret)
        ex.oblige(st, And(le(0, r), le(r, idiv(c.n, 2))), 'the count is at most str_len/2')
        good = lambda j: z3.And(is_hex(c.f(ival(mul(j, 2)))), is_hex(c.f(ival(add(mul(j, 2), 1)))))
        s = st.copy()
        j = skolem(ex, s, 'j', 0, r)
        if j is not None:
            ex.oblige(s, good(j), 'every decoded pair consists of hex digits')
            ex.oblige(s, bv8(ex, s, c.out, j) == hexval(c.f(ival(mul(j, 2)))) * 16 + hexval(c.f(ival(add(mul(j, 2), 1)))),
                      'buf[j] is the value of pair j')
        ex.oblige(st, Or(eq(r, idiv(c.n, 2)), z3.Not(good(r))), 'decoding stops at the first bad pair only')


# ---------------------------------------------------------------- C26
class Dump:
    """the printed text: W(i) characters stand before byte i and its separators; OUT(k) is character k"""
    def __init__(self, f, n, upper):
        self.f, self.n, self.upper = f, n, upper
        self.W = z3.Function('printed_before', z3.IntSort(), z3.IntSort())
        self.OUT = z3.Function('printed', z3.IntSort(), z3.BitVecSort(8))

    def start(self, st):
        W = self.W
        st.add(keep(W(z3.IntVal(0)) == 0))
        st.add(keep(W(ival(self.n)) >= 0))
        st.add(keep(self.OUT(W(ival(self.n))) == bv(8, 10)))

    def byte(self, st, i):
        """byte i: a blank for each of 4, 8, 16 dividing i, a line break when 32 does, two digits"""
        w = keep(self.W(ival(i)))
        st.add(keep(w >= 0))
        at = lambda k, x: keep(self.OUT(ival(add(w, k))) == x)
        b = self.f(ival(i))
        div = [And(lt(0, i), eq(imod(i, q), 0)) for q in (4, 8, 16, 32)]
        pos = 0
        for d, ch in zip(div, b'   \n'):
            # the separators of smaller groups come first
            st.add(Implies(d, at(pos, bv(8, ch))))
            pos = add(pos, If(d, 1, 0))
        st.add(at(pos, hexdigit(z3.LShR(b, 4), self.upper)))
        st.add(at(add(pos, 1), hexdigit(b & 15, self.upper)))
        st.add(eq(keep(self.W(ival(add(i, 1)))), add(add(w, pos), 2)))


def emit(ex, st, X, fn, total, what):
    """`total` characters fn(s, j) go to standard output"""
    s = st.copy()
    out = st.g['out']
    j = skolem(ex, s, 'j', 0, total)
    if j is not None:
        ex.oblige(s, keep(as_bv(fn(s, j)) == X.OUT(ival(add(out, j)))), what)
    st.g['out'] = add(out, total)


def dump_loop(X):
    def hook(ex, fr, header, env0, st):
        """before byte i: W(i) characters are printed or lie in the cache, in order"""
        if 'out' not in st.g:
            return None
        tag = '%s loop %s: ' % (fr.f.name, header)
        names = hooks.phi_names(fr, header)
        i0, out0 = ex.newint(st, 'i', 0, 1 << 61), st.g['out']
        stride, pend = {}, []
        outs = hooks.iteration(ex, fr, header, env0, st)
        backs = [o for o in outs if o[0] == 'back']
        if not backs:
            return None
        regs = set()
        for o in backs:
            nx = ex.phis(fr, header, o[1], o[2], o[3])
            regs |= {r for r in hooks.changed(ex, st, o[3]) if ex.regions[r].kind in ('stack', 'heap')}
            for d in names:
                x = hooks.diff(env0[d], nx[d]) if isinstance(nx[d], (Ptr, IV)) and isinstance(env0[d], (Ptr, IV)) else None
                if x is None:
                    return None
                if isc(x) and stride.setdefault(d, x) == x and x == 1 and d not in pend:
                    continue
                stride.pop(d, None)
                if d not in pend:
                    pend.append(d)
        if not stride or len(regs) > 1 or bool(pend) != bool(regs):
            return None
        reg = regs.pop() if regs else None
        base = {d: hooks.off_of(env0[d]) for d in pend}
        size = ex.regions[reg].size if reg is not None else 0
        if not isc(size) or any(not isc(b) for b in base.values()):
            return None
        k = ex.newint(st, 'k', 0, 1 << 61)

        def head(limit):
            hs, he = st.copy(), dict(env0)
            W = keep(X.W(ival(k)))
            hs.add(le(k, X.n))
            p = ex.newint(hs, 'cached', 0, limit)
            for d in stride:
                he[d] = hooks.shifted(env0[d], k)
            for d in pend:
                v = env0[d]
                he[d] = hooks.shifted(v, p)
            hs.g['out'] = ex.newint(hs, 'printed', 0, None)
            hs.add(eq(add(hs.g['out'], p), W))
            t = hs.copy()
            m0 = len(t.pc)
            X.byte(t, k)
            for q in t.pc[m0:]:
                hs.add(Implies(lt(k, X.n), q))
            if reg is not None:
                b, f = ex.byte_base('cache', False)
                hs.mem[reg] = b
                lo = [base[d] for d in pend][0]
                o = hs.g['out']
                hs.mem[reg] = Range(b, lo, add(lo, p), lambda s, m: BV(8, keep(X.OUT(ival(add(o, sub(m, lo)))))))
            return hs, he, p
        # entry
        ex.oblige(st, And(eq(out0, 0), *[eq(b, 0) if not isinstance(env0[d], Ptr) else True for d, b in base.items()]), tag + 'nothing is printed before the first byte')
        limit = 0
        if reg is not None:
            hs, he, p = head(max(0, size - 6))
            for o in hooks.iteration(ex, fr, header, he, hs):
                if o[0] == 'back':
                    nx = ex.phis(fr, header, o[1], o[2], o[3])
                    v = sub(hooks.off_of(nx[pend[0]]), base[pend[0]])
                    lo, hi = limit, size
                    while lo < hi:      # the largest value
                        mid = (lo + hi) // 2
                        if ex.decide(o[3], le(v, mid)) is True:
                            hi = mid
                        else:
                            lo = mid + 1
                    limit = lo
        hs, he, p = head(limit)
        res = []
        for o in hooks.iteration(ex, fr, header, he, hs, False):
            if o[0] != 'back':
                res.append(o)
                continue
            s = o[3]
            nx = ex.phis(fr, header, o[1], o[2], s)
            for d in stride:
                x = hooks.diff(he[d], nx[d])
                ex.oblige(s, x is not None and eq(x, 1), tag + 'one byte per iteration')
            ex.oblige(s, le(add(k, 1), X.n), tag + 'the byte lies in the data')
            q = sub(keep(X.W(ival(add(k, 1)))), s.g['out'])
            for d in pend:
                x = hooks.diff(env0[d], nx[d])
                ex.oblige(s, x is not None and eq(x, q), tag + 'the cache holds what is not printed yet')
            if not pend:
                ex.oblige(s, eq(q, 0), tag + 'everything is printed')
                continue
            ex.oblige(s, And(le(0, q), le(q, limit)), tag + 'the cache has room for the next byte')
            if any(r != reg and ex.regions[r].kind != 'stack' for r in hooks.changed(ex, hs, s)):
                ex.oblige(s, False, tag + 'only the cache is written')
            lo = base[pend[0]]
            t = s.copy()
            j = skolem(ex, t, 'j', 0, q)
            if j is not None:
                ex.oblige(t, keep(bv8(ex, t, reg, add(lo, j)) == X.OUT(ival(add(s.g['out'], j)))), tag + 'the cache holds the text in order')
        ex.summarised.add((fr.f.name, header))
        return res
    return hook


@register
class HexDump(Contract):
    """standard output receives the text of Dump, ended by one newline"""
    name = 'fingera_hex_dump'

    def setup(self, ex, st):
        c = Ctx()
        c.n = size_param(ex, st, 'buf_size')
        c.buf, c.f = in_buf(ex, st, 'buf', c.n)
        c.upper = int_param(ex, st, 'upper')
        X = c.X = Dump(c.f, c.n, as_bv(c.upper) != 0)
        X.start(st)
        st.g['out'] = 0
        ex.hooks = [dump_loop(X)]

        def fwrite(ex, st, v, fr):
            p, a, b = v[0], as_u(v[1]), as_u(v[2])
            total = mul(a, b) if isc(a) or isc(b) else None
            if total is None:
                raise Unsupported('fwrite of a product of unknown sizes')
            ex.oblige(st, isinstance(v[3], Ptr) and v[3].r == 'fn:stdout', 'output goes to the standard output')
            ex.rw_ok(st, p, total, 'fwrite in ' + fr.f.name, False)
            node = st.mem[p.r]
            emit(ex, st, X, lambda s, j: ex.read8(s, node, add(p.off, j)), total, 'characters printed')
            return [(st, U(64, b))]

        def putchar(ex, st, v, fr):
            if len(v) > 1:
                ex.oblige(st, isinstance(v[1], Ptr) and v[1].r == 'fn:stdout', 'output goes to the standard output')
            x = ex.cast('trunc', v[0], 8)
            emit(ex, st, X, lambda s, j: x, 1, 'characters printed')
            return [(st, ex.cast('zext', x, 32))]
        ex.on_fwrite, ex.on_putchar = fwrite, putchar
        return [Ptr(c.buf, 0), U(64, c.n), c.upper], c

    def post(self, ex, st, ret, c):
        ex.oblige(st, eq(st.g['out'], add(keep(c.X.W(ival(c.n))), 1)), 'all characters and the final newline are printed')
