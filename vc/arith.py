"""Values and arithmetic of the verifier: mathematical integers with explicit range/wrap reasoning, and bit vectors."""
import z3

I0 = z3.IntVal(0)
_keep = []          # keeps z3 asts alive so ast ids stay unique
BOUNDS = {}         # ast id -> (lo, hi)  (hi/lo may be None)
_lin = {}
_counter = [0]


def fresh_id():
    _counter[0] += 1
    return _counter[0]


def keep(e):
    _keep.append(e)
    return e


def bound(e, lo, hi):
    keep(e)
    BOUNDS[e.get_id()] = (lo, hi)
    return e


def isc(x):
    return isinstance(x, int)


def ival(x):
    return z3.IntVal(x) if isinstance(x, int) else x


# ------------------------------------------------------------- linear forms
def lin(e):
    """-> (const, {id: (coef, atom)})"""
    if isinstance(e, int):
        return e, {}
    i = e.get_id()
    r = _lin.get(i)
    if r is not None:
        return r
    keep(e)
    r = _lin1(e, i)
    _lin[i] = r
    return r


def _lin1(e, i):
    if z3.is_int_value(e):
        return e.as_long(), {}
    k = e.decl().kind()
    if k == z3.Z3_OP_ADD:
        c, d = 0, {}
        for a in e.children():
            c2, d2 = lin(a)
            c += c2
            d = _dadd(d, d2, 1)
        return c, d
    if k == z3.Z3_OP_SUB:
        ch = e.children()
        c, d = lin(ch[0])
        for a in ch[1:]:
            c2, d2 = lin(a)
            c -= c2
            d = _dadd(d, d2, -1)
        return c, d
    if k == z3.Z3_OP_UMINUS:
        c, d = lin(e.arg(0))
        return -c, {x: (-q, a) for x, (q, a) in d.items()}
    if k == z3.Z3_OP_MUL:
        consts, rest = 1, []
        for a in e.children():
            c, d = lin(a)
            if not d:
                consts *= c
            else:
                rest.append(a)
        if not rest:
            return consts, {}
        if len(rest) == 1:
            c, d = lin(rest[0])
            return c * consts, {x: (q * consts, a) for x, (q, a) in d.items()} if consts else {}
        if consts != 1:
            p = rest[0]
            for a in rest[1:]:
                p = p * a
            keep(p)
            return 0, ({p.get_id(): (consts, p)} if consts else {})
    return 0, {i: (1, e)}


def _dadd(d, d2, s):
    d = dict(d)
    for x, (q, a) in d2.items():
        n = d.get(x, (0, a))[0] + s * q
        if n:
            d[x] = (n, a)
        else:
            d.pop(x, None)
    return d


def build(c, d):
    """canonical expression of a linear form"""
    if not d:
        return c
    ts = []
    for x in sorted(d):
        q, a = d[x]
        ts.append(a if q == 1 else z3.IntVal(q) * a)
    if c:
        ts.append(z3.IntVal(c))
    e = ts[0] if len(ts) == 1 else z3.Sum(ts)
    _lin[keep(e).get_id()] = (c, d)
    return e


def add(a, b):
    if isc(a) and isc(b):
        return a + b
    c1, d1 = lin(a)
    c2, d2 = lin(b)
    return build(c1 + c2, _dadd(d1, d2, 1))


def sub(a, b):
    if isc(a) and isc(b):
        return a - b
    c1, d1 = lin(a)
    c2, d2 = lin(b)
    return build(c1 - c2, _dadd(d1, d2, -1))


def mul(a, b):
    if isc(a) and isc(b):
        return a * b
    c1, d1 = lin(a)
    c2, d2 = lin(b)
    if not d1:
        return build(c1 * c2, {x: (q * c1, t) for x, (q, t) in d2.items()}) if c1 else 0
    if not d2:
        return mul(b, a)
    e = ival(a) * ival(b)
    la, ha = rng(a)
    lb, hb = rng(b)
    if None not in (la, ha, lb, hb):
        ps = [la * lb, la * hb, ha * lb, ha * hb]
        bound(e, min(ps), max(ps))
    return e


def split_div(a, n):
    """a = n*q + r with q a linear form (exact part) and r the rest"""
    c, d = lin(a)
    qd, rd = {}, {}
    for x, (k, t) in d.items():
        if k % n == 0:
            qd[x] = (k // n, t)
        else:
            qk = k // n
            if qk:
                qd[x] = (qk, t)
            rd[x] = (k - qk * n, t)
    return build(c // n, qd), build(c % n, rd)


_divs = {}


def idiv(a, n):
    """floor division by a positive constant"""
    if isc(a):
        return a // n
    if n == 1:
        return a
    q, r = split_div(a, n)
    lo, hi = rng(r)
    if lo is not None and hi is not None and lo // n == hi // n:
        return add(q, lo // n)
    # (x div m) div n = x div (m n)
    c, d = lin(r)
    if c == 0 and len(d) == 1:
        (k, t), = d.values()
        if k == 1 and t.decl().kind() == z3.Z3_OP_IDIV and z3.is_int_value(t.arg(1)) and t.arg(1).as_long() > 0:
            return add(q, idiv(t.arg(0), n * t.arg(1).as_long()))
    e = ival(r) / z3.IntVal(n)
    keep(e)
    bound(e, None if lo is None else lo // n, None if hi is None else hi // n)
    return add(q, e)


def imod(a, n):
    if isc(a):
        return a % n
    if n == 1:
        return 0
    q, r = split_div(a, n)
    lo, hi = rng(r)
    if lo is not None and hi is not None and lo // n == hi // n:
        return sub(r, (lo // n) * n)
    c, d = lin(r)
    if c == 0 and len(d) == 1:
        (k, t), = d.values()
        # (x mod m) mod n with n | m
        if k == 1 and t.decl().kind() == z3.Z3_OP_MOD and z3.is_int_value(t.arg(1)) and t.arg(1).as_long() % n == 0:
            return imod(t.arg(0), n)
    e = ival(r) % z3.IntVal(n)
    bound(e, 0, n - 1)
    return e


_rng = {}


def rng(e, depth=0):
    if isc(e):
        return e, e
    c, d = lin(e)
    lo = hi = c
    for x, (q, a) in d.items():
        l, h = arng(a, depth)
        if q < 0:
            l, h = h, l
        lo = None if lo is None or l is None else lo + q * l
        hi = None if hi is None or h is None else hi + q * h
    return lo, hi


def arng(a, depth):
    b = BOUNDS.get(a.get_id())
    if b is not None:
        return b
    if depth > 20:
        return None, None
    k = a.decl().kind()
    if k == z3.Z3_OP_ITE:
        l1, h1 = rng(a.arg(1), depth + 1)
        l2, h2 = rng(a.arg(2), depth + 1)
        r = (None if l1 is None or l2 is None else min(l1, l2), None if h1 is None or h2 is None else max(h1, h2))
        BOUNDS[keep(a).get_id()] = r
        return r
    if k == z3.Z3_OP_MOD and z3.is_int_value(a.arg(1)) and a.arg(1).as_long() > 0:
        return 0, a.arg(1).as_long() - 1
    if k == z3.Z3_OP_IDIV and z3.is_int_value(a.arg(1)) and a.arg(1).as_long() > 0:
        n = a.arg(1).as_long()
        l, h = rng(a.arg(0), depth + 1)
        return (None if l is None else l // n), (None if h is None else h // n)
    if k == z3.Z3_OP_BV2INT:
        return 0, bvmax(a.arg(0))
    return None, None


def bvmax(e, depth=0):
    """an upper bound of a bit vector's unsigned value"""
    w = e.size()
    full = (1 << w) - 1
    if z3.is_bv_value(e):
        return e.as_long()
    if depth > 8:
        return full
    k = e.decl().kind()
    if k == z3.Z3_OP_ZERO_EXT:
        return bvmax(e.arg(0), depth + 1)
    if k == z3.Z3_OP_CONCAT:
        ch = e.children()
        if z3.is_bv_value(ch[0]) and ch[0].as_long() == 0:
            n = 0
            for x in ch[1:]:
                n += x.size()
            return bvmax(ch[1], depth + 1) if len(ch) == 2 else (1 << n) - 1
        return full
    if k == z3.Z3_OP_BAND:
        return min(bvmax(x, depth + 1) for x in e.children())
    if k in (z3.Z3_OP_BOR, z3.Z3_OP_BXOR):
        m = max(bvmax(x, depth + 1) for x in e.children())
        return (1 << m.bit_length()) - 1
    if k == z3.Z3_OP_BLSHR and z3.is_bv_value(e.arg(1)):
        return bvmax(e.arg(0), depth + 1) >> e.arg(1).as_long()
    if k == z3.Z3_OP_BSHL and z3.is_bv_value(e.arg(1)):
        return min(full, bvmax(e.arg(0), depth + 1) << e.arg(1).as_long())
    if k == z3.Z3_OP_ITE:
        return max(bvmax(e.arg(1), depth + 1), bvmax(e.arg(2), depth + 1))
    if k == z3.Z3_OP_EXTRACT:
        return full
    return full


_small = {}


def small(e, n=60):
    k = (e.get_id(), n)
    r = _small.get(k)
    if r is None:
        seen, stack = set(), [e]
        r = True
        while stack:
            x = stack.pop()
            i = x.get_id()
            if i in seen:
                continue
            seen.add(i)
            if len(seen) > n:
                r = False
                break
            stack.extend(x.children())
        keep(e)
        _small[k] = r
    return r


RAW = [False]       # keep sums whole (canonicalised later by anf.py)


def extract(hi, lo, e):
    """bits hi..lo without distributing over arithmetic of large terms"""
    if hi == e.size() - 1 and lo == 0:
        return e
    if z3.is_bv_value(e) or (not RAW[0] and small(e)):
        return keep(z3.simplify(z3.Extract(hi, lo, e)))
    k = e.decl().kind()
    if k == z3.Z3_OP_EXTRACT:
        h, l = e.params()
        return extract(hi + l, lo + l, e.arg(0))
    if k == z3.Z3_OP_CONCAT:
        out, pos = [], e.size()
        for c in e.children():
            pos -= c.size()
            h, l = min(hi - pos, c.size() - 1), max(lo - pos, 0)
            if h >= l:
                out.append(extract(h, l, c))
        return concat(out)
    if k == z3.Z3_OP_ZERO_EXT:
        w = e.arg(0).size()
        if hi < w:
            return extract(hi, lo, e.arg(0))
        if lo >= w:
            return z3.BitVecVal(0, hi - lo + 1)
    return keep(z3.Extract(hi, lo, e))


def concat(xs):
    """concatenation (most significant first), merging neighbouring extracts"""
    if all(z3.is_bv_value(x) for x in xs) or (not RAW[0] and all(small(x, 30) for x in xs)):
        return keep(z3.simplify(z3.Concat(xs))) if len(xs) > 1 else xs[0]
    out = []
    for x in xs:
        if out and z3.is_app(x) and x.decl().kind() == z3.Z3_OP_EXTRACT and out[-1].decl().kind() == z3.Z3_OP_EXTRACT:
            h, l = out[-1].params()
            h2, l2 = x.params()
            if l == h2 + 1 and out[-1].arg(0).eq(x.arg(0)):
                e = x.arg(0)
                out[-1] = e if h == e.size() - 1 and l2 == 0 else z3.Extract(h, l2, e)
                continue
        out.append(x)
    return keep(z3.Concat(out)) if len(out) > 1 else out[0]


# ------------------------------------------------------------- comparisons (python bool when decided)
def lt(a, b):
    return le(add(a, 1), b)


def le(a, b):
    d = sub(b, a)
    if isc(d):
        return d >= 0
    lo, hi = rng(d)
    if lo is not None and lo >= 0:
        return True
    if hi is not None and hi < 0:
        return False
    return keep(ival(a) <= ival(b))


def eq(a, b):
    d = sub(a, b)
    if isc(d):
        return d == 0
    lo, hi = rng(d)
    if (lo is not None and lo > 0) or (hi is not None and hi < 0):
        return False
    return keep(ival(a) == ival(b))


def And(*xs):
    ys = []
    for x in xs:
        if x is True:
            continue
        if x is False:
            return False
        ys.append(x)
    if not ys:
        return True
    return ys[0] if len(ys) == 1 else keep(z3.And(ys))


def Or(*xs):
    ys = []
    for x in xs:
        if x is False:
            continue
        if x is True:
            return True
        ys.append(x)
    if not ys:
        return False
    return ys[0] if len(ys) == 1 else keep(z3.Or(ys))


def Not(x):
    if isinstance(x, bool):
        return not x
    return keep(z3.Not(x))


def Implies(a, b):
    return Or(Not(a), b)


def If(c, a, b):
    """integer ite"""
    if c is True:
        return a
    if c is False:
        return b
    if isc(a) and isc(b) and a == b:
        return a
    if not isc(a) and not isc(b) and a.eq(b):
        return a
    return keep(z3.If(c, ival(a), ival(b)))


def zb(x):
    return z3.BoolVal(x) if isinstance(x, bool) else x


# ------------------------------------------------------------- machine values
class IV:
    """iN value. k: 'c' python int (unsigned), 'b' bit vector, 'u'/'s' mathematical integer in the unsigned/signed
    range of width w, 'B' boolean as 0/1.  raw: the unwrapped mathematical value of a possibly wrapping operation."""
    __slots__ = ('w', 'k', 'e', 'raw')

    def __init__(self, w, k, e, raw=None):
        self.w, self.k, self.e, self.raw = w, k, e, raw

    def __repr__(self):
        return 'i%d:%s:%s' % (self.w, self.k, str(self.e)[:200])


def C(w, v):
    return IV(w, 'c', v & ((1 << w) - 1))


def U(w, e):
    return C(w, e) if isc(e) else IV(w, 'u', e)


def S(w, e):
    return C(w, e) if isc(e) else IV(w, 's', e)


def BV(w, e):
    if z3.is_bv_value(e):
        return C(w, e.as_long())
    return IV(w, 'b', e)


def Bo(w, c):
    if isinstance(c, bool):
        return C(w, int(c))
    return IV(w, 'B', c)


_bv2i = {}


def bv2int(e):
    """mathematical value of a bit vector, peeling zero extension"""
    while True:
        k = e.decl().kind()
        if k == z3.Z3_OP_ZERO_EXT:
            e = e.arg(0)
        elif k == z3.Z3_OP_CONCAT and z3.is_bv_value(e.arg(0)) and e.arg(0).as_long() == 0 and e.num_args() == 2:
            e = e.arg(1)
        else:
            break
    if z3.is_bv_value(e):
        return e.as_long()
    if k == z3.Z3_OP_INT2BV:
        x = e.arg(0)
        lo, hi = rng(x)
        if lo is not None and lo >= 0 and hi is not None and hi < (1 << e.size()):
            return x
    r = keep(z3.BV2Int(e))
    return r


def as_bv(v):
    if v.k == 'c':
        return z3.BitVecVal(v.e, v.w)
    if v.k == 'b':
        return v.e
    if v.k == 'B':
        return z3.If(v.e, z3.BitVecVal(1, v.w), z3.BitVecVal(0, v.w))
    e = v.e
    if e.decl().kind() == z3.Z3_OP_BV2INT:
        x = e.arg(0)
        if x.size() == v.w:
            return x
        if x.size() < v.w:
            return z3.ZeroExt(v.w - x.size(), x)
    # a linear combination of bytes with power-of-two weights is a concatenation (recognised by the simplifier otherwise)
    return keep(z3.Int2BV(e, v.w))


def as_u(v):
    """unsigned mathematical value (python int or z3 Int)"""
    if v.k == 'c' or v.k == 'u':
        return v.e
    if v.k == 'B':
        return If(v.e, 1, 0)
    if v.k == 'b':
        return bv2int(v.e)
    lo, hi = rng(v.e)
    if lo is not None and lo >= 0:
        return v.e
    if hi is not None and hi < 0:
        return add(v.e, 1 << v.w)
    return bound(If(lt(v.e, 0), add(v.e, 1 << v.w), v.e), 0, (1 << v.w) - 1)


def sconst(c, w):
    return c - (1 << w) if c >> (w - 1) else c


def as_s(v):
    if v.k == 'c':
        return sconst(v.e, v.w)
    if v.k == 's':
        return v.e
    if v.k == 'B':
        return If(v.e, 1, 0) if v.w > 1 else If(v.e, -1, 0)
    if v.raw is not None:
        lo, hi = rng(v.raw)
        if lo is not None and hi is not None and lo >= -(1 << (v.w - 1)) and hi < (1 << (v.w - 1)):
            return v.raw
    u = as_u(v)
    lo, hi = rng(u)
    if hi is not None and hi < (1 << (v.w - 1)):
        return u
    if v.k == 'b':
        if v.e.decl().kind() == z3.Z3_OP_SIGN_EXT:
            return as_s(IV(v.e.arg(0).size(), 'b', v.e.arg(0)))
    return bound(If(lt(u, 1 << (v.w - 1)), u, sub(u, 1 << v.w)), -(1 << (v.w - 1)), (1 << (v.w - 1)) - 1)


def as_bool(v):
    """value != 0"""
    if v.k == 'c':
        return v.e != 0
    if v.k == 'B':
        return v.e
    if v.k == 'b':
        return keep(v.e != 0)
    return Not(eq(v.e, 0))


class Ptr:
    __slots__ = ('r', 'off', 'bvi')

    def __init__(self, r, off, bvi=None):
        self.r, self.off, self.bvi = r, off, bvi

    def __repr__(self):
        return 'ptr(%s+%s)' % (self.r, self.off)


NULL = Ptr(None, 0)


class PI:
    """a pointer converted to an integer"""
    __slots__ = ('p', 'w')

    def __init__(self, p):
        self.p, self.w = p, 64


class Undef:
    def __repr__(self):
        return 'undef'


UNDEF = Undef()


def digit(u, j):
    """base-256 digit j of a sum of terms that occupy disjoint bytes (None when the sum is not of that shape)"""
    if isc(u):
        return u >> (8 * j) & 255
    c, d = lin(u)
    if c or len(d) < 2:
        return None
    at = {}
    for q, a in d.values():
        l, h = arng(a, 0)
        if q <= 0 or l is None or l < 0 or h is None:
            return None
        k = ((q & -q).bit_length() - 1) // 8
        if k in at or q * h >= 1 << (8 * k + 8):
            return None
        at[k] = (q >> (8 * k), a)
    if j not in at:
        return 0
    return mul(at[j][1], at[j][0])


# ------------------------------------------------------------- functions of one byte
_tab = {}


def byte_function(e):
    """(x, (value for x = lo .. hi), lo) when e is a case distinction over a single bounded atom x of at most 256 values, else None"""
    i = e.get_id()
    if i in _tab:
        return _tab[i]
    keep(e)
    r = None
    atoms, todo, seen, ite = {}, [e], set(), 0
    while todo and len(atoms) < 2 and len(seen) < 600:
        a = todo.pop()
        if a.get_id() in seen:
            continue
        seen.add(a.get_id())
        k = a.decl().kind() if z3.is_app(a) else None
        if k == z3.Z3_OP_UNINTERPRETED or k is None:
            atoms[a.get_id()] = a
            continue
        if k in (z3.Z3_OP_ITE, z3.Z3_OP_OR):
            ite += 1
        todo += a.children()
    if len(atoms) == 1 and not todo and ite:
        x = next(iter(atoms.values()))
        lo, hi = rng(x) if x.sort() == z3.IntSort() else (None, None)
        if lo is not None and hi is not None and hi - lo < 256:
            vals = []
            for v in range(lo, hi + 1):
                y = z3.simplify(z3.substitute(e, (x, z3.IntVal(v))))
                if z3.is_int_value(y):
                    vals.append(y.as_long())
                elif z3.is_true(y) or z3.is_false(y):
                    vals.append(z3.is_true(y))
                else:
                    vals = None
                    break
            if vals:
                r = (x, vals, lo)
    _tab[i] = r
    return r


def tabulated(e):
    """the same function of a byte in canonical form: runs of constant or of consecutive values"""
    if isc(e) or isinstance(e, bool) or not z3.is_expr(e):
        return e
    t = byte_function(e)
    if t is None:
        return e
    x, vals, lo = t
    runs = []
    for j, v in enumerate(vals):
        if runs:
            a, z, y, s = runs[-1]
            if s in (None, 0) and v == y:
                runs[-1] = (a, lo + j, y, 0)
                continue
            if not isinstance(v, bool) and s in (None, 1) and v == y + (lo + j - a):
                runs[-1] = (a, lo + j, y, 1)
                continue
        runs.append((lo + j, lo + j, v, None))
    if len(runs) > 32:
        return e
    if isinstance(vals[0], bool):
        yes = [(a, z) for a, z, v, s in runs if v]
        no = [(a, z) for a, z, v, s in runs if not v]
        inside = lambda rs: Or(*[eq(x, a) if a == z else And(le(a, x), le(x, z)) for a, z in rs])
        r = inside(yes) if len(yes) <= len(no) else Not(inside(no))
    else:
        byv = {}
        for a, z, v, s in runs:
            if s != 1:
                byv.setdefault(v, []).append((a, z))
        r = None
        for v, rs in sorted(byv.items(), key=lambda q: (-len(q[1]), q[0])):
            r = v if r is None else If(Or(*[eq(x, a) if a == z else And(le(a, x), le(x, z)) for a, z in rs]), v, r)
        for a, z, v, s in runs:
            if s == 1:
                y = add(sub(x, a), v)
                r = y if r is None else If(And(le(a, x), le(x, z)), y, r)
        if not isc(r):
            bound(r, min(vals), max(vals))
    return r
