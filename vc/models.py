"""Assumed behaviour of functions outside /repo (the C library); libsecp256k1 is in secp.py.
Every model used in a run is listed in the evidence as trusted."""
import ctypes
import z3
from .arith import *
from .engine import Base, Store, Range, Quant, Unsupported, Ptr

MODELS = {}


def model(*names):
    def deco(f):
        for n in names:
            MODELS[n] = f
        return f
    return deco


@model('llvm.memcpy', 'memcpy')
def m_memcpy(ex, st, v, fr):
    n = as_u(v[2])
    if v[0].r is not None and v[0].r == v[1].r:
        a, b = v[0].off, v[1].off
        ex.oblige(st, Or(eq(a, b), le(add(a, n), b), le(add(b, n), a), eq(n, 0)), 'in bounds of memcpy: source and destination do not overlap in ' + fr.f.name)
    ex.copy_bytes(st, v[0], v[1], n, 'memcpy in ' + fr.f.name)
    return [(st, v[0])]


@model('llvm.memmove', 'memmove')
def m_memmove(ex, st, v, fr):
    n = as_u(v[2])
    ex.copy_bytes(st, v[0], v[1], n, 'memcpy in ' + fr.f.name)
    return [(st, v[0])]


@model('llvm.memset', 'memset')
def m_memset(ex, st, v, fr):
    ex.set_bytes(st, v[0], v[1], as_u(v[2]), 'memset in ' + fr.f.name)
    return [(st, v[0])]


@model('llvm.va_start', 'llvm.va_end', 'llvm.dbg.declare', 'llvm.dbg.value', 'llvm.lifetime.start', 'llvm.lifetime.end', 'llvm.assume')
def m_nop(ex, st, v, fr):
    return [(st, None)]


@model('llvm.bswap')
def m_bswap(ex, st, v, fr):
    x = v[0]
    if x.k == 'c':
        return [(st, C(x.w, int.from_bytes(x.e.to_bytes(x.w // 8, 'little'), 'big')))]
    bs = [ex.byte_of(x, j) for j in range(x.w // 8)]
    return [(st, ex.join(list(reversed(bs)), x.w))]


@model('llvm.umin', 'llvm.umax', 'llvm.smin', 'llvm.smax')
def m_minmax(ex, st, v, fr):
    raise Unsupported('min/max intrinsic')


@model('__assert_fail')
def m_assert(ex, st, v, fr):
    if getattr(ex, 'assert_stops', False):
        ex.exits.append(st)
        return []
    ex.oblige(st, False, 'assertion in %s cannot fail' % fr.f.name)
    return []


def stops(ex, st):
    """where the contract says so, the process stops only because the random device failed"""
    if getattr(ex, 'stop_reason', False):
        fd, r = st.g.get('lastfd'), st.g.get('lastread')
        ex.oblige(st, Or(lt(fd, 0) if fd is not None else False, le(r, 0) if r is not None else False),
                  'the process stops only when the device cannot be opened or read')


@model('exit', 'abort')
def m_exit(ex, st, v, fr):
    """the process ends: nothing after it runs"""
    stops(ex, st)
    ex.exits.append(st)
    return []


@model('fprintf', 'vfprintf', 'fflush', 'printf')
def m_io(ex, st, v, fr):
    e = ex.newint(st, 'io', -(1 << 31), (1 << 31) - 1)
    return [(st, S(32, e))]


@model('fingera_fatal_message', 'fingera_exit', 'fingera_fatal_exit')
def m_fatal(ex, st, v, fr):
    stops(ex, st)
    ex.exits.append(st)
    return []


@model('__errno_location')
def m_errno(ex, st, v, fr):
    return [(st, Ptr(ex.region(st, 'errno', 4, 'heap'), 0))]


@model('strerror')
def m_strerror(ex, st, v, fr):
    return [(st, Ptr(ex.region(st, 'strerror', 1, 'heap', writable=False), 0))]


@model('malloc')
def m_malloc(ex, st, v, fr):
    n = as_u(v[0])
    ex.oblige(st, le(n, (1 << 63) - 1), 'argument of malloc in %s: the size of an object' % fr.f.name)
    rid = ex.region(st, 'malloc_' + fr.f.name, n, 'heap')
    st.g['live'] = st.g.get('live', ()) + (rid,)
    if fr.f.name in ex.secret_heap or '*' in ex.secret_heap:
        ex.regions[rid].secret = True
    return [(st, Ptr(rid, 0))]


@model('calloc')
def m_calloc(ex, st, v, fr):
    n, k = as_u(v[0]), as_u(v[1])
    if not (isc(n) or isc(k)):
        raise Unsupported('calloc of two symbolic sizes')
    t = mul(n, k)
    ex.oblige(st, lt(t, 1 << 64), 'size of the block fits in ' + fr.f.name)
    [(st, p)] = m_malloc(ex, st, [IV(64, 'u', t) if not isc(t) else C(64, t)], fr)
    ex.set_bytes(st, p, C(32, 0), t, 'calloc in ' + fr.f.name)
    return [(st, p)]


@model('strlen')
def m_strlen(ex, st, v, fr):
    """of a text of known content"""
    p, j = v[0], 0
    while isinstance(p, Ptr) and p.r is not None and isc(p.off) and j < 4096:
        ex.rw_ok(st, Ptr(p.r, p.off + j), 1, 'strlen in ' + fr.f.name, False)
        b = ex.read8(st, st.mem[p.r], p.off + j)
        if b.k != 'c':
            break
        if b.e == 0:
            return [(st, C(64, j))]
        j += 1
    raise Unsupported('strlen of a text that is not known')


@model('free')
def m_free(ex, st, v, fr):
    p = v[0]
    if p.r is None:
        return [(st, None)]
    R = ex.regions[p.r]
    ex.oblige(st, And(R.kind == 'heap', eq(p.off, 0)), 'free of a heap block in ' + fr.f.name)
    if p.r in st.freed:
        ex.oblige(st, False, 'double free in ' + fr.f.name)
    if R.secret and not ex.quiet:
        # ghost: the block must not leave the program with what was computed in it
        m = ex.newint(st, 'wiped', 0, None)
        s = st.copy()
        s.add(lt(m, R.size))
        b = ex.read8(s, s.mem[p.r], m)
        ex.oblige(s, True if b.k == 'c' else Or(eq(as_u(b), 0xCC), eq(as_u(b), 0)) if b.k != 'b' else
                  keep(z3.Or(b.e == 0xCC, b.e == 0)),
                  'heap scratch wiped before free in ' + fr.f.name)
    st = st.copy()
    st.freed = st.freed | {p.r}
    st.g['live'] = tuple(r for r in st.g.get('live', ()) if r != p.r)
    return [(st, None)]


def neq8(a, b):
    if a.k in 'us' or b.k in 'us':
        return Not(eq(as_u(a), as_u(b)))
    if a.k == 'c' and b.k == 'c':
        return a.e != b.e
    return keep(as_bv(a) != as_bv(b))


@model('memcmp', 'bcmp')
def m_memcmp(ex, st, v, fr):
    p, q, n = v[0], v[1], as_u(v[2])
    ex.rw_ok(st, p, n, 'memcmp in ' + fr.f.name, False)
    ex.rw_ok(st, q, n, 'memcmp in ' + fr.f.name, False)
    r = ex.newint(st, 'memcmp', -(1 << 31), (1 << 31) - 1)
    if isc(n) and n <= 64:
        d = Or(*[neq8(ex.read8(st, st.mem[p.r], add(p.off, j)), ex.read8(st, st.mem[q.r], add(q.off, j))) for j in range(n)])
        st.add(keep(zb(d) == (r != 0)))
        return [(st, S(32, r))]
    out = []
    z = eq(n, 0)
    a = st.copy()
    a.add(eq(r, 0))
    mp, mq = st.mem.get(p.r), st.mem.get(q.r)
    qq = Quant(0, n, lambda j: Not(neq8(ex.read8(a, mp, add(p.off, j)), ex.read8(a, mq, add(q.off, j)))), 'memcmp equal')
    a.quant(qq)
    out.append((a, C(32, 0)))
    b = st.copy()
    b.add(Not(eq(r, 0)))
    w = ex.newint(b, 'differ', 0, None)
    b.add(lt(w, n))
    if ex.feasible(b, z3.BoolVal(True)):
        b.add(neq8(ex.read8(b, mp, add(p.off, w)), ex.read8(b, mq, add(q.off, w))))
        b.term(w)
        out.append((b, S(32, r)))
    return out


@model('memrchr')
def m_memrchr(ex, st, v, fr):
    return m_memchr(ex, st, v, fr, True)


@model('memchr')
def m_memchr(ex, st, v, fr, last=False):
    p, n = v[0], as_u(v[2])
    ex.rw_ok(st, p, n, 'memchr in ' + fr.f.name, False)
    c = ex.cast('trunc', v[1], 8)
    mp = st.mem.get(p.r)
    a = st.copy()
    a.quant(Quant(0, n, lambda j: neq8(ex.read8(a, mp, add(p.off, j)), c), 'memchr absent'))
    out = [(a, Ptr(None, 0))]
    b = st.copy()
    hi = n if isc(n) else rng(n)[1]
    w = ex.newint(b, 'found', 0, None if hi is None else max(hi - 1, 0))
    b.add(lt(w, n))
    if ex.feasible(b, z3.BoolVal(True)):
        b.add(Not(neq8(ex.read8(b, mp, add(p.off, w)), c)))
        b.quant(Quant(add(w, 1) if last else 0, n if last else w, lambda j: neq8(ex.read8(b, mp, add(p.off, j)), c), 'memchr first'))
        b.term(w)
        out.append((b, Ptr(p.r, add(p.off, w))))
    return out


# ---------------------------------------------------------------- <ctype.h> in the C locale: the tables of the C library
_libc = ctypes.CDLL(None)
_libc.__ctype_b_loc.restype = ctypes.POINTER(ctypes.POINTER(ctypes.c_ushort))
_tab = _libc.__ctype_b_loc()[0]
CTYPE_B = b''.join(int(_tab[i]).to_bytes(2, 'little') for i in range(-128, 256))
TOLOWER = [_libc.tolower(i) for i in range(-128, 256)]
TOUPPER = [_libc.toupper(i) for i in range(-128, 256)]


@model('__ctype_b_loc')
def m_ctype_b(ex, st, v, fr):
    if ex.ctype is None:
        from .engine import Region
        R = Region('glob:ctype_b', 'ctype_b', len(CTYPE_B), 'global', writable=False, const_init=CTYPE_B)
        cell = Region('glob:ctype_b_loc', 'ctype_b_loc', 8, 'global', writable=False)
        ex.regions[R.rid], ex.regions[cell.rid] = R, cell
        ex.ctype = (R, cell)
    R, cell = ex.ctype
    if R.rid not in st.mem:
        st.mem[R.rid] = Base(lambda st2, off: (C(8, CTYPE_B[off]) if isc(off) else ex.table_int(st2, R, off, 1)), 'ctype_b')
        b, _ = ex.byte_base('ctype_loc')
        st.mem[cell.rid] = Store(b, 0, 8, Ptr(R.rid, 256))
    return [(st, Ptr(cell.rid, 0))]


@model('tolower')
def m_tolower(ex, st, v, fr):
    return case_table(ex, st, v, TOLOWER, 65, 90, 32)


@model('toupper')
def m_toupper(ex, st, v, fr):
    return case_table(ex, st, v, TOUPPER, 97, 122, -32)


def case_table(ex, st, v, tab, lo, hi, d):
    x = v[0]
    if x.k == 'c':
        return [(st, C(32, tab[sconst(x.e, 32) + 128]))]
    if x.k == 'b':
        e = x.e
        sgn = e.decl().kind() == z3.Z3_OP_SIGN_EXT
        if e.decl().kind() in (z3.Z3_OP_SIGN_EXT, z3.Z3_OP_ZERO_EXT) and e.arg(0).size() == 8:
            leaves = []
            for b in range(256):
                i = b - 256 if sgn and b >= 128 else b
                leaves.append(tab[i + 128] & 0xffffffff)
            return [(st, ex.tree(e.arg(0), 8, leaves, 32))]
    s = as_s(x)
    ex.oblige(st, And(le(-128, s), le(s, 255)), 'argument of tolower/toupper')
    e = ival(s)
    r = z3.If(z3.And(e >= lo, e <= hi), e + d, e)
    return [(st, S(32, bound(keep(r), -(1 << 31), (1 << 31) - 1)))]


# ---------------------------------------------------------------- standard output
@model('fwrite')
def m_fwrite(ex, st, v, fr):
    return ex.on_fwrite(ex, st, v, fr)


@model('putchar', 'fputc', 'putc', '_IO_putc', 'putchar_unlocked')
def m_putchar(ex, st, v, fr):
    return ex.on_putchar(ex, st, v, fr)


# ---------------------------------------------------------------- /dev/urandom as a byte stream
@model('open', 'open64')
def m_open(ex, st, v, fr):
    out = []
    fd = ex.newint(st, 'fd', -1, (1 << 31) - 1)
    path = v[0]
    want = b'/dev/urandom\0'
    if path.r is not None:
        got = [ex.read8(st, st.mem[path.r], add(path.off, j)) for j in range(len(want))]
        ok = all(g.k == 'c' and g.e == w for g, w in zip(got, want))
    else:
        ok = False
    ex.oblige(st, ok, 'the random device is /dev/urandom')
    st.g['open'] = st.g.get('open', ()) + (fd,)
    st.g['lastfd'] = fd
    return [(st, S(32, fd))]


def urandom():
    return z3.Function('urandom', z3.IntSort(), z3.BitVecSort(8))


@model('read')
def m_read(ex, st, v, fr):
    """any short read, end of file or error; bytes come from the device stream in order"""
    fd, p, n = v[0], v[1], as_u(v[2])
    ex.rw_ok(st, p, n, 'read in ' + fr.f.name, True)
    ex.oblige(st, any(same_int(as_s(fd), x) for x in st.g.get('open', ())), 'read from the opened descriptor')
    ex.oblige(st, le(0, as_s(fd)), 'read from a descriptor that could be opened')
    r = ex.newint(st, 'nread', -1, (1 << 31) - 1)
    # POSIX transfers at most SSIZE_MAX; Linux at most 0x7ffff000 per call
    st.add(le(r, 0x7ffff000))
    st.add(le(r, n))
    pos = st.g.get('rpos', 0)
    U8 = urandom()
    got = If(le(0, r), r, 0)
    st.g['lastread'] = r
    if p.r is not None:
        st.mem[p.r] = Range(st.mem[p.r], p.off, add(p.off, got), lambda s2, m: IV(8, 'b', keep(U8(ival(add(pos, sub(m, p.off)))))))
    st.g['rpos'] = add(pos, got)
    return [(st, S(64, r))]


def same_int(a, b):
    d = sub(a, b)
    return isc(d) and d == 0


@model('close')
def m_close(ex, st, v, fr):
    fd = as_s(v[0])
    ex.oblige(st, any(same_int(fd, x) for x in st.g.get('open', ())), 'close of the opened descriptor')
    st.g['open'] = tuple(x for x in st.g.get('open', ()) if not same_int(fd, x))
    return [(st, C(32, 0))]


from .engine import Ex      # noqa: E402
for _n in ('stderr', 'stdout'):
    Ex.ptr_regions[_n] = lambda st, off, _n=_n: Ptr('fn:' + _n, 0)
