"""Verification-condition generator: symbolic execution of clang's LLVM IR of /repo, modular over contracts, with
inductive loop summaries.  Every obligation is discharged by an SMT solver for all inputs and all iterations."""
import os, sys, time, itertools
import z3
from . import ir
from .arith import *
from . import arith as A
from . import anf, cong

PTRMAX = (1 << 63) - 1


class Unsupported(Exception):
    pass


class Give(Exception):
    pass


# ------------------------------------------------------------------ memory
class Base:
    __slots__ = ('fn', 'name')

    def __init__(self, fn, name):
        self.fn, self.name = fn, name


class Store:
    __slots__ = ('prev', 'off', 'n', 'val')

    def __init__(self, prev, off, n, val):
        self.prev, self.off, self.n, self.val = prev, off, n, val


class Range:
    __slots__ = ('prev', 'lo', 'hi', 'fn')

    def __init__(self, prev, lo, hi, fn):
        self.prev, self.lo, self.hi, self.fn = prev, lo, hi, fn


class Region:
    def __init__(self, rid, name, size, kind, writable=True, const_init=None):
        self.rid, self.name, self.size, self.kind, self.writable = rid, name, size, kind, writable
        self.const_init = const_init   # bytes for constant tables
        self.secret = False
        self.entry = None


class State:
    __slots__ = ('pc', 'ids', 'mem', 'freed', 'quants', 'terms', 'g', 'frames')

    def __init__(self):
        self.pc, self.ids, self.mem, self.freed = [], set(), {}, frozenset()
        self.quants, self.terms, self.g, self.frames = [], [], {}, ()

    def copy(self):
        s = State()
        s.pc, s.ids, s.mem, s.freed = list(self.pc), set(self.ids), dict(self.mem), self.freed
        s.quants, s.terms, s.g, s.frames = list(self.quants), list(self.terms), dict(self.g), self.frames
        return s

    def add(self, c):
        if c is True:
            return
        if c is False:
            c = z3.BoolVal(False)
        if z3.is_and(c):
            for x in c.children():
                self.add(x)
            return
        keep(c)
        i = c.get_id()
        if i not in self.ids:
            self.ids.add(i)
            self.pc.append(c)

    def term(self, t):
        if any((isc(t) and isc(u) and t == u) or (not isc(t) and not isc(u) and t.eq(u)) for u in self.terms):
            return
        self.terms.append(t)
        for q in self.quants:
            q.inst(self, t)

    def quant(self, q):
        self.quants.append(q)
        for t in self.terms:
            q.inst(self, t)


class Quant:
    """for all lo <= j < hi: fn(j)"""

    def __init__(self, lo, hi, fn, name=''):
        self.lo, self.hi, self.fn, self.name = lo, hi, fn, name
        self.back = None

    def inst(self, st, t):
        """at the index t, and - where the body reads an array backwards, at b - j - at the index that reads position t"""
        self.at(st, t)
        if self.back is None:
            j = z3.FreshInt('j')
            self.back = [b for a, b in reads(self.fn(j), j) if a == -1]
        for b in self.back:
            self.at(st, sub(b, t))

    def at(self, st, t):
        c = And(le(self.lo, t), lt(t, self.hi))
        if c is False:
            return
        st.add(Implies(c, self.fn(t)))


def reads(c, j):
    """[(a, b)]: c reads an array (an uninterpreted function of one index) at a * j + b"""
    out, seen, todo = [], set(), [] if isinstance(c, (bool, int)) else [c]
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if not z3.is_app(x):
            continue
        todo.extend(x.children())
        if x.num_args() == 1 and x.decl().kind() == z3.Z3_OP_UNINTERPRETED and x.arg(0).sort() == z3.IntSort():
            c0, m = lin(x.arg(0))
            a = m.get(j.get_id(), (0, None))[0]
            b = build(c0, {i: v for i, v in m.items() if i != j.get_id()})
            if a and not any(a == p and (b is q or (isc(b) and isc(q) and b == q) or (not isc(b) and not isc(q) and b.eq(q))) for p, q in out):
                out.append((a, b))
    return out


class Frame:
    def __init__(self, f, mod):
        self.f, self.mod = f, mod


class Ob:
    __slots__ = ('func', 'name', 'ok', 'backend', 't', 'model', 'detail', 'post')
    phase = 'body'      # 'post' while a postcondition is checked

    def __init__(self, func, name, ok, backend, t, model=None, detail=''):
        self.func, self.name, self.ok, self.backend, self.t, self.model, self.detail = func, name, ok, backend, t, model, detail
        self.post = Ob.phase == 'post'


def show(g, n=600):
    """text of a term, unless it is large"""
    if isinstance(g, bool):
        return str(g)
    seen, stack = set(), [g]
    while stack:
        x = stack.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if len(seen) > 200:
            return '(large term)'
        stack.extend(x.children())
    return str(g)[:n]


# ------------------------------------------------------------------ solver
class Inc:
    """incremental solver whose assertion stack mirrors the current path condition"""

    def __init__(self):
        self.s = z3.Solver()
        self.stack = []
        self.n = 0
        self.t = 0.0

    def sync(self, pc):
        k = 0
        st = self.stack
        m = min(len(st), len(pc))
        while k < m and st[k] is pc[k]:
            k += 1
        if k < len(st):
            self.s.pop(len(st) - k)
            del st[k:]
        for c in pc[k:]:
            self.s.push()
            self.s.add(c)
            st.append(c)

    def check(self, pc, extra, ms):
        t = time.time()
        self.n += 1
        self.sync(pc)
        self.s.set('timeout', ms)
        self.s.push()
        self.s.add(extra)
        r = self.s.check()
        m = None
        if r == z3.sat:
            try:
                m = self.s.model()
            except z3.Z3Exception:
                m = None
        self.s.pop()
        self.t += time.time() - t
        return r, m


class Ex:
    def __init__(self, prog, contracts=None, intmode=False, name=''):
        self.prog, self.contracts, self.intmode, self.name = prog, contracts or {}, intmode, name
        self.inc = Inc()
        self.inc2 = Inc()
        self._plain = {}
        self.regions = {}
        self.obs = []
        self.quiet = 0
        self.tent = 0          # obligations recorded now may be withdrawn again
        self.grace = 75
        self.on_fail = None
        self.unroll = 16
        self.ms = 20000
        self.folds = []
        self.specs = {}          # region id -> fn(st, m) -> IV8: specified final contents, used as loop invariant candidate
        self.hooks = []
        self.name_terms = False
        self.canon = {}             # region -> offsets named by the specification (None: integers)
        self.axioms = set()         # facts that hold for every offset (bytes lie in 0 .. 255)
        self.used = set()        # contracts used at call sites
        self.executed = set()    # functions whose bodies were executed
        self.trusted = set()     # models of external functions used
        self.brdec = 0
        self.steps = 0
        self.globals = {}
        self.depth = 0
        self.free_check = None
        self.deadline = None
        self.skolems = []
        self.unrolled_loops = set()
        self.summarised = set()
        self.cover = 0
        self.noted = []
        self.inputs = []
        self.unroll_hint = {}
        self.exits = []
        self.secret_heap = ()
        self.ctype = None
        self.on_fwrite = self.on_putchar = None
        self.nounroll = False
        self.may_init = False       # module initialisation
        self.nounroll_loops = set()
        self.tryunroll = 12
        self.loop_facts = []
        self.loop_checks = []
        self.anf = None
        self.cong = None

    # -------------------------------------------------- fresh symbols
    def fint(self, name, lo=None, hi=None):
        e = z3.Int('%s!%d' % (name, fresh_id()))
        bound(e, lo, hi)
        return e

    def fbv(self, name, w):
        return keep(z3.BitVec('%s!%d' % (name, fresh_id()), w))

    def fbool(self, name):
        return keep(z3.Bool('%s!%d' % (name, fresh_id())))

    def ffun(self, name, *sorts):
        return z3.Function('%s!%d' % (name, fresh_id()), *sorts)

    def newint(self, st, name, lo, hi):
        """fresh integer with its range as a fact"""
        e = self.fint(name, lo, hi)
        if lo is not None:
            st.add(keep(e >= lo))
        if hi is not None:
            st.add(keep(e <= hi))
        return e

    def byte_base(self, name, intmode=None):
        """unconstrained bytes, one uninterpreted function of the offset"""
        im = self.intmode if intmode is None else intmode
        if im:
            f = self.ffun(name, z3.IntSort(), z3.IntSort())

            def fn(st, off):
                e = keep(f(ival(off)))
                bound(e, 0, 255)
                for ax in (keep(e >= 0), keep(e <= 255)):
                    st.add(ax)
                    self.axioms.add(ax.get_id())
                return IV(8, 'u', e)
        else:
            f = self.ffun(name, z3.IntSort(), z3.BitVecSort(8))

            def fn(st, off):
                return IV(8, 'b', keep(f(ival(off))))
        b = Base(fn, name)
        return b, f

    # -------------------------------------------------- regions
    def region(self, st, name, size, kind='heap', writable=True, content=None, const_init=None):
        rid = '%s#%d' % (name, fresh_id())
        r = Region(rid, name, size, kind, writable, const_init)
        self.regions[rid] = r
        if content is None:
            content, _ = self.byte_base('undef_' + name)
        st.mem[rid] = content
        r.entry = content
        return rid

    # -------------------------------------------------- deciding
    def check(self, st, extra, ms):
        if self.deadline and time.time() > self.deadline:
            raise Give('time budget of the function used up')
        if self.name_terms:
            # first from the facts without case distinctions only
            r, m = self.inc2.check([c for c in st.pc if self.plain(c)], extra, 200)
            if r == z3.unsat:
                return r, m
        return self.inc.check(st.pc, extra, ms)

    def plain(self, c):
        i = c.get_id()
        r = self._plain.get(i)
        if r is None:
            todo, seen, r = [c], set(), True
            while todo and r:
                e = todo.pop()
                if e.get_id() in seen:
                    continue
                seen.add(e.get_id())
                k = e.decl().kind() if z3.is_app(e) else None
                if k in (z3.Z3_OP_OR, z3.Z3_OP_ITE, z3.Z3_OP_AND, z3.Z3_OP_IMPLIES) or len(seen) > 60:
                    r = False
                todo += e.children()
            self._plain[i] = r
            keep(c)
        return r

    def feasible(self, st, c):
        if isinstance(c, bool):
            return c
        r, _ = self.check(st, c, 500)
        return r != z3.unsat

    def decide(self, st, c, ms=300):
        """True / False / None (both possible or unknown)"""
        if isinstance(c, bool):
            return c
        r, _ = self.check(st, Not(c), ms)
        if r == z3.unsat:
            return True
        r, _ = self.check(st, c, ms)
        if r == z3.unsat:
            return False
        return None

    def valid(self, st, g, ms=None):
        """(ok, backend, model)"""
        if isinstance(g, bool):
            if g:
                return True, 'syntactic', None
            r, m = self.check(st, z3.BoolVal(True), ms or self.ms)
            return (True, 'z3', None) if r == z3.unsat else (False, 'z3:%s' % r, m)
        if self.anf is not None and z3.is_eq(g) and z3.is_bv(g.arg(0)):
            if anf.prove(self.anf, g.arg(0), g.arg(1)):
                return True, 'anf', None
            m = anf.refute(g.arg(0), g.arg(1))
            if m is not None:
                return False, 'anf: refuted by evaluation', None
            if not small(g, 4000):
                return False, 'anf: canonical forms differ', None
        if z3.is_eq(g) and z3.is_bv(g.arg(0)) and not small(g, 250):
            if self.cong is None:
                self.cong = cong.Cong(self)
            g2, n = self.cong.reduce(st, g)
            if z3.is_true(g2):
                return True, 'congruence', None
            r, m = self.check(st, z3.Not(g2), min(ms or self.ms, 5000))
            if r == z3.unsat:
                return True, 'congruence', None
            if not small(g, 20000):
                return False, 'congruence: %s' % r, None
        g = z3.simplify(g)
        if z3.is_true(g):
            return True, 'simplifier', None
        ms = ms or self.ms
        r, m = self.check(st, z3.Not(g), min(ms, 2000))
        if r == z3.unsat:
            return True, 'z3', None
        if r == z3.sat:
            return False, 'z3:sat', m
        if self.decompose(st, g, ms):
            return True, 'z3 (bytewise)', None
        s = z3.Solver()
        s.set('timeout', ms)
        s.add(st.pc)
        s.add(z3.Not(g))
        r = s.check()
        if r == z3.unsat:
            return True, 'z3', None
        return False, 'z3:%s' % r, (s.model() if r == z3.sat else None)

    def decompose(self, st, g, ms):
        """prove an equality of bit vectors byte by byte / of applications argument by argument"""
        if not z3.is_eq(g) or not z3.is_bv(g.arg(0)):
            return False
        a, b = g.arg(0), g.arg(1)
        if z3.is_app(a) and z3.is_app(b) and a.num_args() and a.decl().eq(b.decl()) and a.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            return all(self.quick_eq(st, x, y, ms) for x, y in zip(a.children(), b.children()))
        w = a.size()
        if w > 8 and w % 8 == 0:
            for j in range(w // 8):
                x = z3.simplify(z3.Extract(8 * j + 7, 8 * j, a))
                y = z3.simplify(z3.Extract(8 * j + 7, 8 * j, b))
                if not self.quick_eq(st, x, y, ms):
                    return False
            return True
        return False

    def quick_eq(self, st, x, y, ms):
        if x.eq(y):
            return True
        g = z3.simplify(x == y)
        if z3.is_true(g):
            return True
        r, _ = self.check(st, z3.Not(g), min(ms, 1500))
        if r == z3.unsat:
            return True
        if r == z3.sat:
            return False
        if z3.is_eq(g) and self.decompose(st, g, ms):
            return True
        return False

    def oblige(self, st, g, name, ms=None, share=None):
        """record a proof obligation"""
        if self.quiet:
            return True
        if g is True:
            self.obs.append(Ob(self.name, name, True, 'syntactic', 0))
            return True
        t = time.time()
        ok, be, m = self.valid(st, g, ms)
        self.obs.append(Ob(self.name, name, ok, be, time.time() - t, self.model(st, m) if not ok else None,
                           '' if ok else show(g)))
        if not ok and not self.tent:
            self.deadline = min(self.deadline, time.time() + self.grace)
            if self.on_fail:
                self.on_fail(self.obs[-1])
        if not ok and os.environ.get('VC_DEBUG'):
            print('FAILED', self.name, name, be, show(g, 1500), file=sys.stderr)
            if os.environ.get('VC_DEBUG') == '2':
                for c in st.pc:
                    print('   pc', show(c, 300).replace('\n', ' '), file=sys.stderr)
                print(m, file=sys.stderr)
        return ok

    def model(self, st, m):
        if m is None:
            return None
        out = {}
        try:
            for nm, kind, x in self.inputs:
                if kind == 'int':
                    v = m.eval(ival(x), model_completion=True)
                    out[nm] = v.as_long()
                elif kind == 'bv':
                    out[nm] = m.eval(x, model_completion=True).as_long()
                elif kind == 'bytes':
                    f, size = x
                    n = m.eval(ival(size), model_completion=True).as_long()
                    n = min(n, 400)
                    out[nm] = bytes(m.eval(f(z3.IntVal(i)), model_completion=True).as_long() & 255 for i in range(n)).hex()
        except Exception as e:
            out['error'] = str(e)
        return out

    # -------------------------------------------------- byte level
    def ite8(self, c, a, b):
        if c is True:
            return a
        if c is False:
            return b
        if a.k == b.k and not isc(a.e) and not isc(b.e) and a.e.eq(b.e):
            return a
        if a.k == 'c' and b.k == 'c' and a.e == b.e:
            return a
        if a.k in 'us' or b.k in 'us':
            e = If(c, as_u(a), as_u(b))
            return U(a.w, e)
        return BV(a.w, keep(z3.If(c, as_bv(a), as_bv(b))))

    def byte_of(self, v, j):
        """byte j of a stored value"""
        if isinstance(v, (Ptr, PI, Undef)):
            raise Unsupported('reading a byte of a stored pointer')
        if v.w <= 8:
            if v.k == 'B':
                return IV(8, 'b', as_bv(IV(8, 'B', v.e)))
            return IV(8, v.k, v.e) if v.k != 's' else U(8, as_u(v))
        if v.k == 'c':
            return C(8, v.e >> (8 * j))
        if v.k in 'us' and self.intmode:
            return U(8, imod(idiv(as_u(v), 1 << (8 * j)), 256))
        if v.k in 'us':
            u = as_u(v)
            lo, hi = rng(u)
            if hi is not None and hi < (1 << (8 * j)):
                return C(8, 0)
            d = digit(u, j)
            if d is not None:
                return U(8, d)
        e = as_bv(v)
        return BV(8, extract(8 * j + 7, 8 * j, e))

    def read8(self, st, node, off):
        conds = []
        while True:
            if isinstance(node, Base):
                r = node.fn(st, off)
                break
            if isinstance(node, Store):
                lo, n = node.off, node.n
                d = sub(off, lo)
                if isc(d):
                    if 0 <= d < n:
                        r = self.byte_of(node.val, d)
                        break
                    node = node.prev
                    continue
                c = And(le(0, d), lt(d, n))
                dec = self.decide(st, c)
                if dec is False:
                    node = node.prev
                    continue
                v = self.byte_of(node.val, 0)
                for j in range(1, n):
                    v = self.ite8(eq(d, j), self.byte_of(node.val, j), v)
                if dec is True:
                    r = v
                    break
                conds.append((c, v))
                node = node.prev
                continue
            c = And(le(node.lo, off), lt(off, node.hi))
            dec = self.decide(st, c)
            if dec is False:
                node = node.prev
                continue
            if dec is True:
                r = node.fn(st, off)
                break
            s2 = st.copy()
            s2.add(c)
            n0 = len(s2.pc)
            v = node.fn(s2, off)
            for f in s2.pc[n0:]:
                g = Implies(c, f)
                st.add(g)
                if f.get_id() in self.axioms and z3.is_expr(g):
                    self.axioms.add(keep(g).get_id())
            conds.append((c, v))
            node = node.prev
        for c, v in reversed(conds):
            r = self.ite8(c, v, r)
        return r

    def in_bounds(self, st, p, n, what, write=False):
        if p.r is None:
            self.oblige(st, False, 'null dereference: ' + what)
            raise Unsupported('null dereference')
        if p.r == '?':
            raise Unsupported('access through an unknown pointer')
        R = self.regions[p.r]
        if p.r not in st.mem and R.kind == 'global' and R.entry is not None:
            st.mem[p.r] = R.entry
        if p.r in st.freed:
            self.oblige(st, False, 'use of freed or dead memory %s: %s' % (R.name, what))
        if write and not R.writable:
            self.oblige(st, False, 'write to memory outside the frame (%s): %s' % (R.name, what))
        g = And(le(0, p.off), le(add(p.off, n), R.size))
        if not self.quiet:
            self.oblige(st, g, 'in bounds of %s: %s' % (R.name, what))
        return R

    def load(self, st, p, ty, what=''):
        n = ir.sizeof(ty)
        if p.bvi is not None:
            return self.load_table(st, p, ty, what)
        R = self.in_bounds(st, p, n, what)
        node = st.mem[p.r]
        # exact or non-overlapping cells first
        nd = node
        while isinstance(nd, Store):
            d = sub(p.off, nd.off)
            if not isc(d):
                break
            if d == 0 and nd.n == n:
                v = nd.val
                if ty.kind == 'ptr' and isinstance(v, (Ptr, Undef)):
                    return v
                if ty.kind == 'int' and isinstance(v, IV):
                    if v.w == ty.w:
                        return v
                    if ty.w < 8 and v.w == ty.w:
                        return v
                    if v.w > ty.w:
                        return self.cast('trunc', v, ty.w)
                if isinstance(v, Undef):
                    return v
                if isinstance(v, PI) and ty.kind == 'int':
                    return v
                break
            if d + n <= 0 or d >= nd.n:
                nd = nd.prev
                continue
            break
        if ty.kind == 'ptr':
            f = getattr(nd, 'fn', None)
            if R.name in self.ptr_regions:
                return self.ptr_regions[R.name](st, p.off)
            raise Unsupported('load of a pointer from untyped memory: ' + what + ' in ' + R.name)
        if R.const_init is not None and not isc(p.off):
            return self.table_int(st, R, p.off, n)
        bs = [self.read8(st, nd, add(p.off, j)) for j in range(n)]
        return self.join(bs, ty.w)

    ptr_regions = {}

    def join(self, bs, w):
        if len(bs) == 1:
            v = bs[0]
            if w == 8:
                return v
            return self.cast('trunc', v, w)
        if all(b.k == 'c' for b in bs):
            x = 0
            for j, b in enumerate(bs):
                x |= b.e << (8 * j)
            return C(w, x)
        if self.intmode or all(b.k in 'cu' for b in bs):
            x = 0
            for j, b in enumerate(bs):
                x = add(x, mul(as_u(b), 1 << (8 * j)))
            return U(w, x)
        e = concat([as_bv(b) for b in reversed(bs)])
        return BV(w, e)

    def table_int(self, st, R, off, n):
        """constant table indexed by a mathematical integer"""
        data = R.const_init
        vals = {}
        # candidate offsets: all element positions congruent to the access
        lo, hi = rng(off)
        cands = [i for i in range(0, len(data) - n + 1, n)]
        if lo is not None:
            cands = [i for i in cands if i >= lo]
        if hi is not None:
            cands = [i for i in cands if i <= hi]
        if not isc(imod(off, n)):
            raise Unsupported('misaligned table access')
        base = imod(off, n)
        cands = [i + base for i in cands]
        for i in cands:
            vals.setdefault(int.from_bytes(data[i:i + n], 'little'), []).append(i)
        if not vals:
            return U(8 * n, 0)
        dflt = max(vals, key=lambda v: len(vals[v]))
        o = ival(off)
        if self.intmode:
            # runs of constant values, or of consecutive values for byte tables
            runs = []
            for i in cands:
                v = int.from_bytes(data[i:i + n], 'little')
                if runs:
                    a, z, x, s = runs[-1]
                    if s in (None, 0) and v == x:
                        runs[-1] = (a, i, x, 0)
                        continue
                    if n == 1 and s in (None, 1) and v == x + (i - a):
                        runs[-1] = (a, i, x, 1)
                        continue
                runs.append((i, i, v, None))
            if len(runs) <= 24:
                byv = {}
                e = None
                for a, z, x, s in runs:
                    if s == 1:
                        continue
                    byv.setdefault(x, []).append((a, z))
                for x, rs in sorted(byv.items(), key=lambda q: -len(q[1])):
                    e = x if e is None else If(Or(*[And(le(a, off), le(off, z)) for a, z in rs]), x, e)
                for a, z, x, s in runs:
                    if s == 1:
                        v = add(sub(off, a), x)
                        e = v if e is None else If(And(le(a, off), le(off, z)), v, e)
                e = ival(e)
                bound(e, 0, max(vals))
                return IV(8 * n, 'u', e)
            e = z3.IntVal(dflt)
            mk = z3.IntVal
        else:
            e = z3.BitVecVal(dflt, 8 * n)
            mk = lambda v: z3.BitVecVal(v, 8 * n)
        for v, idx in vals.items():
            if v == dflt:
                continue
            idx = sorted(idx)
            c = z3.Or([o == i for i in idx]) if len(idx) > 1 else o == idx[0]
            e = z3.If(c, mk(v), e)
        keep(e)
        if self.intmode:
            bound(e, 0, max(vals))
            return IV(8 * n, 'u', e)
        return BV(8 * n, e)

    def load_table(self, st, p, ty, what):
        """constant table indexed by a bit vector"""
        R = self.regions[p.r]
        n = ir.sizeof(ty)
        idx, scale = p.bvi
        if R.const_init is None or not isc(p.off) or p.r in st.freed:
            q = Ptr(p.r, add(p.off, mul(as_s(IV(64, 'b', idx)), scale)))
            return self.load(st, q, ty, what)
        data = R.const_init
        # strip extension
        x, sgn = idx, False
        while x.decl().kind() in (z3.Z3_OP_ZERO_EXT, z3.Z3_OP_SIGN_EXT):
            sgn = sgn or x.decl().kind() == z3.Z3_OP_SIGN_EXT
            if x.decl().kind() == z3.Z3_OP_ZERO_EXT and sgn:
                break
            if x.decl().kind() == z3.Z3_OP_ZERO_EXT:
                sgn = False
                x = x.arg(0)
                while x.decl().kind() == z3.Z3_OP_ZERO_EXT:
                    x = x.arg(0)
                break
            x = x.arg(0)
        w = x.size()
        if w > 8:
            nb = bvmax(x).bit_length()
            if nb == 0:
                nb = 1
            if nb <= 10 and not sgn:
                x = z3.simplify(z3.Extract(nb - 1, 0, x))
                w = nb
            else:
                # need a proof that the index is small
                lim = len(data) // scale
                nb = max(1, (lim - 1).bit_length())
                if not self.quiet:
                    self.oblige(st, keep(z3.ULT(idx, lim)), 'in bounds of %s: %s' % (R.name, what))
                x = z3.simplify(z3.Extract(nb - 1, 0, idx))
                w, sgn = nb, False
        # bounds: every index value that is possible must be inside
        leaves, bad = [], []
        for v in range(1 << w):
            s = v - (1 << w) if sgn and v >> (w - 1) else v
            o = p.off + s * scale
            if 0 <= o and o + n <= len(data):
                leaves.append(int.from_bytes(data[o:o + n], 'little'))
            else:
                leaves.append(None)
                bad.append(v)
        if bad:
            lim = min(bad)
            if bad == list(range(lim, 1 << w)):
                g = z3.ULT(x, z3.BitVecVal(lim, w))
            else:
                g = z3.And([x != z3.BitVecVal(v, w) for v in bad])
            if not self.quiet:
                self.oblige(st, keep(g), 'in bounds of %s: %s' % (R.name, what))
            leaves = [0 if l is None else l for l in leaves]
        return self.tree(x, w, leaves, 8 * n)

    def tree(self, x, w, leaves, ow):
        key = (x.get_id(), tuple(leaves), ow)
        r = self._trees.get(key)
        if r is not None:
            return r
        keep(x)
        memo = {}

        def bit(i):
            return z3.Extract(i, i, x) == z3.BitVecVal(1, 1)

        def go(b, ls):
            k = (b, tuple(ls))
            if k in memo:
                return memo[k]
            if all(l == ls[0] for l in ls):
                r = z3.BitVecVal(ls[0], ow)
            else:
                h = len(ls) // 2
                r = z3.If(bit(b), go(b - 1, ls[h:]), go(b - 1, ls[:h]))
            memo[k] = r
            return r
        r = BV(ow, keep(go(w - 1, leaves)))
        self._trees[key] = r
        return r

    _trees = {}

    def store(self, st, p, v, n, what=''):
        if p.bvi is not None:
            idx, scale = p.bvi
            p = Ptr(p.r, add(p.off, mul(as_s(IV(64, 'b', idx)), scale)))
        self.in_bounds(st, p, n, what, write=True)
        if isinstance(v, IV) and v.k == 'B' and v.w <= 8:
            v = IV(8, 'b', as_bv(IV(8, 'B', v.e)))
        if isinstance(v, IV) and v.w < 8:
            v = self.cast('zext', v, 8)
        node = st.mem[p.r]
        # drop an overwritten cell directly below
        if isinstance(node, Store):
            d = sub(p.off, node.off)
            if isc(d) and d == 0 and node.n == n:
                node = node.prev
        st.mem[p.r] = Store(node, p.off, n, v)

    def copy_bytes(self, st, d, s, n, what):
        """memcpy / memmove"""
        if isc(n) and n == 0:
            return
        self.rw_ok(st, s, n, what + ' (source)', False)
        self.rw_ok(st, d, n, what + ' (destination)', True)
        if s.r is None or d.r is None:
            return
        src = st.mem[s.r]
        if isc(n):
            v = None
            nd = src
            while isinstance(nd, Store):
                dd = sub(s.off, nd.off)
                if not isc(dd):
                    break
                if dd == 0 and nd.n == n:
                    v = nd.val
                    break
                if dd + n <= 0 or dd >= nd.n:
                    nd = nd.prev
                    continue
                break
            if v is not None:
                st.mem[d.r] = Store(st.mem[d.r], d.off, n, v)
                return
        delta = sub(s.off, d.off)
        st.mem[d.r] = Range(st.mem[d.r], d.off, add(d.off, n), lambda st2, m: self.read8(st2, src, add(m, delta)))

    def rw_ok(self, st, p, n, what, write):
        """n bytes at p accessible (vacuous for n == 0)"""
        z = eq(n, 0)
        if z is True:
            return
        if p.r is None:
            self.oblige(st, z, 'null pointer: ' + what)
            return
        R = self.regions[p.r]
        if p.r in st.freed:
            self.oblige(st, z, 'use of freed or dead memory %s: %s' % (R.name, what))
        if write and not R.writable:
            self.oblige(st, z, 'write to memory outside the frame (%s): %s' % (R.name, what))
        if not self.quiet:
            self.oblige(st, Or(z, And(le(0, n), le(0, p.off), le(add(p.off, n), R.size))), 'in bounds of %s: %s' % (R.name, what))

    def set_bytes(self, st, d, v, n, what):
        if isc(n) and n == 0:
            return
        self.rw_ok(st, d, n, what, True)
        if d.r is None:
            return
        b = C(8, v.e) if v.k == 'c' else self.cast('trunc', v, 8)
        st.mem[d.r] = Range(st.mem[d.r], d.off, add(d.off, n), lambda st2, m: b)

    # -------------------------------------------------- values
    def cast(self, op, v, w):
        if isinstance(v, PI):
            if w == v.w:
                return v
            raise Unsupported('cast of a pointer value')
        if isinstance(v, Undef):
            return v
        if op == 'zext':
            if v.k == 'c':
                return C(w, v.e)
            if v.k == 'B':
                return IV(w, 'B', v.e)
            if v.k == 'b':
                return BV(w, keep(z3.ZeroExt(w - v.w, v.e)))
            return U(w, as_u(v))
        if op == 'sext':
            if v.k == 'c':
                return C(w, sconst(v.e, v.w))
            if v.k == 'B':
                if v.w > 1:
                    return IV(w, 'B', v.e)
                return S(w, If(v.e, -1, 0))
            if v.k == 'b':
                return BV(w, keep(z3.SignExt(w - v.w, v.e)))
            return S(w, tabulated(as_s(v)) if self.name_terms else as_s(v))
        if op == 'trunc':
            if v.k == 'c':
                return C(w, v.e)
            if v.k == 'B':
                return IV(w, 'B', v.e)
            if v.k == 'b':
                if v.e.decl().kind() in (z3.Z3_OP_ZERO_EXT, z3.Z3_OP_SIGN_EXT) and v.e.arg(0).size() == w:
                    return BV(w, v.e.arg(0))
                if v.e.decl().kind() in (z3.Z3_OP_ZERO_EXT,) and v.e.arg(0).size() < w:
                    return BV(w, keep(z3.ZeroExt(w - v.e.arg(0).size(), v.e.arg(0))))
                return BV(w, extract(w - 1, 0, v.e))
            if v.k == 's':
                lo, hi = rng(v.e)
                if lo is not None and hi is not None and lo >= -(1 << (w - 1)) and hi < (1 << (w - 1)):
                    return S(w, v.e)
            return U(w, imod(as_u(v), 1 << w))
        raise Unsupported(op)

    def nonneg(self, st, e, hi):
        """e, known to lie in 0 .. hi on this path; with name_terms a constant equal to it with these bounds"""
        if not self.name_terms or isc(e):
            return e
        memo = st.g.get('named', ())
        for t, x in memo:
            if t.eq(e):
                return x
        h = rng(e)[1]
        x = self.newint(st, 'v', 0, hi if h is None else min(h, hi))
        st.add(keep(x == e))
        st.g['named'] = memo + ((e, x),)
        return x

    def wrapu(self, st, r, w):
        """unsigned result of an operation that may wrap"""
        if isc(r):
            return C(w, r)
        M = 1 << w
        lo, hi = rng(r)
        if lo is not None and lo >= 0 and hi is not None and hi < M:
            return U(w, r)
        if self.quiet:
            return IV(w, 'u', r)
        c = And(le(0, r), lt(r, M))
        if self.decide(st, c) is True:
            return IV(w, 'u', r)
        if lo is not None and lo >= -M and hi is not None and hi < M:
            e = If(lt(r, 0), add(r, M), r)
        elif lo is not None and lo >= 0 and hi is not None and hi < 2 * M:
            e = If(le(M, r), sub(r, M), r)
        else:
            e = imod(r, M)
        if not isc(e):
            bound(e, 0, M - 1)
        return IV(w, 'u', e, raw=r)

    def binop(self, st, op, fl, w, a, b, what=''):
        if isinstance(a, Undef) or isinstance(b, Undef):
            return UNDEF
        if isinstance(a, PI) or isinstance(b, PI):
            if op == 'sub' and isinstance(a, PI) and isinstance(b, PI) and a.p.r == b.p.r:
                d = sub(a.p.off, b.p.off)
                if isc(d):
                    return C(w, d)
                lo, hi = rng(d)
                if lo is not None and lo >= 0:
                    return U(w, d)
                if not self.quiet and self.decide(st, le(0, d)) is True:
                    return IV(w, 'u', self.nonneg(st, d, PTRMAX))
                if self.quiet:
                    return IV(w, 'u', d)
                bound(d, -PTRMAX, PTRMAX)
                return IV(w, 's', d)
            raise Unsupported('arithmetic on pointer values')
        if a.k == 'c' and b.k == 'c':
            return self.fold_c(st, op, fl, w, a.e, b.e, what)
        if w == 1 or (a.k == 'B' and b.k in 'Bc' and (b.k == 'B' or b.e in (0, 1)) and op in ('and', 'or', 'xor')) or \
                (b.k == 'B' and a.k == 'c' and a.e in (0, 1) and op in ('and', 'or', 'xor')):
            x, y = as_bool(a), as_bool(b)
            r = {'and': And, 'or': Or, 'xor': lambda p, q: (Not(q) if p is True else q if p is False else Not(p) if q is True
                                                            else p if q is False else keep(z3.Xor(p, q)))}.get(op)
            if r:
                return Bo(w, r(x, y))
        isint = a.k in 'us' or b.k in 'us'
        if op in ('and', 'or', 'xor', 'shl', 'lshr', 'ashr'):
            if isint:
                r = self.bits_int(st, op, w, a, b)
                if r is not None:
                    return r
            return self.bits_bv(st, op, w, a, b)
        if not isint and (a.k == 'B' or b.k == 'B') and not (a.k == 'b' or b.k == 'b'):
            isint = True
        if isint or (op in ('udiv', 'sdiv', 'urem', 'srem') and self.intmode):
            return self.arith_int(st, op, fl, w, a, b, what)
        return self.arith_bv(st, op, fl, w, a, b, what)

    def fold_c(self, st, op, fl, w, x, y, what):
        M = 1 << w
        sx, sy = sconst(x, w), sconst(y, w)
        if op in ('add', 'sub', 'mul'):
            f = {'add': lambda p, q: p + q, 'sub': lambda p, q: p - q, 'mul': lambda p, q: p * q}[op]
            r = f(sx, sy)
            if 'nsw' in fl and not -(M >> 1) <= r < (M >> 1):
                self.oblige(st, False, 'signed overflow: ' + what)
            return C(w, f(x, y))
        if op in ('udiv', 'urem', 'sdiv', 'srem'):
            if y == 0:
                self.oblige(st, False, 'division by zero: ' + what)
                raise Unsupported('division by zero')
            if op == 'udiv':
                return C(w, x // y)
            if op == 'urem':
                return C(w, x % y)
            q = abs(sx) // abs(sy) * (1 if (sx < 0) == (sy < 0) else -1)
            return C(w, q if op == 'sdiv' else sx - q * sy)
        if op == 'and':
            return C(w, x & y)
        if op == 'or':
            return C(w, x | y)
        if op == 'xor':
            return C(w, x ^ y)
        if y >= w:
            self.oblige(st, False, 'shift amount: ' + what)
            raise Unsupported('shift')
        if op == 'shl':
            return C(w, x << y)
        if op == 'lshr':
            return C(w, x >> y)
        return C(w, sx >> y)

    def arith_bv(self, st, op, fl, w, a, b, what):
        x, y = as_bv(a), as_bv(b)
        if 'nsw' in fl and not self.quiet:
            ma, mb = bvmax(x), bvmax(y)
            H = 1 << (w - 1)
            if op == 'add' and ma + mb < H or op == 'mul' and ma * mb < H or op == 'sub' and ma < H and mb < H:
                pass
            else:
                f = {'add': lambda: z3.And(z3.BVAddNoOverflow(x, y, True), z3.BVAddNoUnderflow(x, y)),
                     'sub': lambda: z3.And(z3.BVSubNoOverflow(x, y), z3.BVSubNoUnderflow(x, y, True)),
                     'mul': lambda: z3.And(z3.BVMulNoOverflow(x, y, True), z3.BVMulNoUnderflow(x, y))}.get(op)
                if f:
                    self.oblige(st, keep(f()), 'signed overflow: ' + what)
        if op in ('udiv', 'urem', 'sdiv', 'srem'):
            if not (b.k == 'c' and b.e != 0):
                self.oblige(st, keep(y != 0), 'division by zero: ' + what)
            r = {'udiv': z3.UDiv, 'urem': z3.URem, 'sdiv': lambda p, q: p / q, 'srem': z3.SRem}[op](x, y)
        else:
            if b.k == 'c' and b.e == 0:
                return a if op in ('add', 'sub') else C(w, 0)
            if a.k == 'c' and a.e == 0 and op == 'add':
                return b
            r = {'add': lambda: x + y, 'sub': lambda: x - y, 'mul': lambda: x * y}[op]()
        return BV(w, keep(r))

    def bits_bv(self, st, op, w, a, b):
        if b.k == 'c':
            c = b.e
            if c == 0 and op in ('or', 'xor', 'shl', 'lshr', 'ashr'):
                return a
            if c == 0 and op == 'and':
                return C(w, 0)
            if op in ('shl', 'lshr', 'ashr') and c >= w:
                self.oblige(st, False, 'shift amount out of range')
                raise Unsupported('shift amount')
        elif op in ('shl', 'lshr', 'ashr'):
            self.oblige(st, keep(z3.ULT(as_bv(b), z3.BitVecVal(w, w))), 'shift amount in range')
        x, y = as_bv(a), as_bv(b)
        r = {'and': lambda: x & y, 'or': lambda: x | y, 'xor': lambda: x ^ y, 'shl': lambda: x << y,
             'lshr': lambda: z3.LShR(x, y), 'ashr': lambda: x >> y}[op]()
        return BV(w, keep(r))

    def bits_int(self, st, op, w, a, b):
        M = 1 << w
        if op == 'and':
            if a.k == 'c':
                a, b = b, a
            if b.k == 'c':
                c = b.e
                if c == 0:
                    return C(w, 0)
                u = as_u(a)
                lo, hi = rng(u)
                tz = (c & -c).bit_length() - 1
                top = c >> tz
                if (top & (top + 1)) == 0:     # contiguous ones at tz..
                    n = top.bit_length()
                    r = idiv(u, 1 << tz)
                    if tz + n < w:
                        r = imod(r, 1 << n)
                    return U(w, mul(r, 1 << tz))
                if hi is not None:             # irrelevant high mask bits
                    nb = hi.bit_length()
                    if c & ((1 << nb) - 1) != c:
                        return self.bits_int(st, op, w, a, C(w, c & ((1 << nb) - 1)))
                # all ones except one contiguous field
                z = (M - 1) ^ c
                tz = (z & -z).bit_length() - 1
                top = z >> tz
                if (top & (top + 1)) == 0:
                    f = self.bits_int(st, 'and', w, a, C(w, z))
                    return U(w, sub(u, as_u(f)))
            return None
        if op in ('shl', 'lshr', 'ashr'):
            if b.k != 'c':
                return None
            if b.e >= w:
                self.oblige(st, False, 'shift amount out of range')
                raise Unsupported('shift amount')
            if op == 'shl':
                u = as_u(a)
                return self.wrapu(st, mul(u, 1 << b.e), w)
            if op == 'lshr':
                return U(w, idiv(as_u(a), 1 << b.e))
            s = as_s(a)
            return S(w, idiv(s, 1 << b.e))
        if op == 'or':
            if a.k in 'b' or b.k in 'b':
                return None if not self.intmode else None
            x, y = as_u(a), as_u(b)
            for p, q in ((x, y), (y, x)):
                t = self.tz(p)
                lo, hi = rng(q)
                if hi is not None and lo is not None and lo >= 0 and hi < (1 << t):
                    return U(w, add(p, q))
            return None
        return None

    def tz(self, e):
        """number of provably zero low bits"""
        if isc(e):
            return 64 if e == 0 else (e & -e).bit_length() - 1
        c, d = lin(e)
        t = 64 if c == 0 else (c & -c).bit_length() - 1
        for k, _ in d.values():
            t = min(t, (k & -k).bit_length() - 1)
        return t

    def arith_int(self, st, op, fl, w, a, b, what):
        M = 1 << w
        if op in ('add', 'sub', 'mul'):
            f = {'add': add, 'sub': sub, 'mul': mul}[op]
            if 'nsw' in fl:
                r = f(as_s(a), as_s(b))
                g = And(le(-(M >> 1), r), lt(r, M >> 1))
                if g is not True and not self.quiet:
                    self.oblige(st, g, 'signed overflow: ' + what)
                if isc(r):
                    return C(w, r)
                lo, hi = rng(r)
                lo = -(M >> 1) if lo is None else max(lo, -(M >> 1))
                hi = (M >> 1) - 1 if hi is None else min(hi, (M >> 1) - 1)
                return IV(w, 's', r)
            x = sconst(a.e, w) if a.k == 'c' and op == 'add' else as_u(a)
            y = sconst(b.e, w) if b.k == 'c' and op == 'add' else as_u(b)
            return self.wrapu(st, f(x, y), w)
        if b.k == 'c':
            n = b.e
            if n == 0:
                self.oblige(st, False, 'division by zero: ' + what)
                raise Unsupported('division by zero')
            if op in ('udiv', 'urem'):
                x = as_u(a)
                r = idiv(x, n) if op == 'udiv' else imod(x, n)
                return U(w, r)
            x = as_s(a)
            n = sconst(n, w)
            if n < 0:
                raise Unsupported('division by a negative constant')
            lo, hi = rng(x)
            if (lo is not None and lo >= 0) or self.quiet or self.decide(st, le(0, x)) is True:
                return S(w, idiv(x, n) if op == 'sdiv' else imod(x, n))
            q = If(le(0, x), idiv(x, n), sub(0, idiv(sub(0, x), n)))
            return S(w, q if op == 'sdiv' else sub(x, mul(q, n)))
        raise Unsupported('division by a variable')

    def icmp(self, st, pred, w, a, b):
        if isinstance(a, Undef) or isinstance(b, Undef):
            return Bo(1, self.fbool('undef'))
        if isinstance(a, PI):
            a = a.p
        if isinstance(b, PI):
            b = b.p
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            if not (isinstance(a, Ptr) and isinstance(b, Ptr)):
                if isinstance(a, IV) and a.k == 'c' and a.e == 0:
                    a = NULL
                elif isinstance(b, IV) and b.k == 'c' and b.e == 0:
                    b = NULL
                else:
                    raise Unsupported('comparison of a pointer with an integer')
            if a.r == '?' or b.r == '?':
                return Bo(1, self.fbool('ptrcmp'))
            if a.r != b.r:
                if pred == 'eq':
                    return C(1, 0)
                if pred == 'ne':
                    return C(1, 1)
                raise Unsupported('ordering of pointers into different objects')
            x, y = a.off, b.off
            return Bo(1, {'eq': eq, 'ne': lambda p, q: Not(eq(p, q)), 'ult': lt, 'ule': le, 'ugt': lambda p, q: lt(q, p),
                          'uge': lambda p, q: le(q, p), 'slt': lt, 'sle': le, 'sgt': lambda p, q: lt(q, p),
                          'sge': lambda p, q: le(q, p)}[pred](x, y))
        if a.k == 'B' and b.k == 'c':
            if pred in ('eq', 'ne'):
                if b.e == 0:
                    return Bo(1, Not(a.e) if pred == 'eq' else a.e)
                if b.e == 1 or (b.e == (1 << w) - 1 and w == 1):
                    return Bo(1, a.e if pred == 'eq' else Not(a.e))
                return C(1, int(pred == 'ne'))
        if a.k == 'B' and b.k == 'B' and pred in ('eq', 'ne'):
            e = keep(a.e == b.e)
            return Bo(1, e if pred == 'eq' else Not(e))
        if a.k in 'usB' or b.k in 'usB' or (a.k == 'c' and b.k == 'c'):
            if pred in ('eq', 'ne'):
                if (a.k == 's' or b.k == 's') and a.k != 'u' and b.k != 'u' and a.k != 'b' and b.k != 'b':
                    x, y = as_s(a), as_s(b)
                else:
                    x, y = as_u(a), as_u(b)
                c = eq(x, y)
                if self.name_terms:
                    c = tabulated(c)
                return Bo(1, c if pred == 'eq' else Not(c))
            x, y = (as_s(a), as_s(b)) if pred[0] == 's' else (as_u(a), as_u(b))
            return Bo(1, {'lt': lt(x, y), 'le': le(x, y), 'gt': lt(y, x), 'ge': le(y, x)}[pred[1:]])
        x, y = as_bv(a), as_bv(b)
        c = {'eq': lambda: x == y, 'ne': lambda: x != y, 'ult': lambda: z3.ULT(x, y), 'ule': lambda: z3.ULE(x, y),
             'ugt': lambda: z3.UGT(x, y), 'uge': lambda: z3.UGE(x, y), 'slt': lambda: x < y, 'sle': lambda: x <= y,
             'sgt': lambda: x > y, 'sge': lambda: x >= y}[pred]()
        c = keep(z3.simplify(c))
        if z3.is_true(c):
            return C(1, 1)
        if z3.is_false(c):
            return C(1, 0)
        return Bo(1, c)

    def select(self, c, a, b):
        if c is True:
            return a
        if c is False:
            return b
        if isinstance(a, IV) and isinstance(b, IV):
            if a.k in 'us' or b.k in 'us':
                if a.k == 's' or b.k == 's':
                    return S(a.w, If(c, as_s(a), as_s(b)))
                return U(a.w, If(c, as_u(a), as_u(b)))
            if a.k in 'Bc' and b.k in 'Bc' and (a.k == 'B' or a.e in (0, 1)) and (b.k == 'B' or b.e in (0, 1)):
                return Bo(a.w, Or(And(c, as_bool(a)), And(Not(c), as_bool(b))))
            return BV(a.w, keep(z3.If(c, as_bv(a), as_bv(b))))
        if isinstance(a, Ptr) and isinstance(b, Ptr) and a.r == b.r and a.bvi is None and b.bvi is None:
            return Ptr(a.r, If(c, a.off, b.off))
        return None

    # -------------------------------------------------- operands
    def glob(self, st, fr, name):
        nm = name[1:].strip('"')
        f = fr.mod.funcs.get(nm) or fr.mod.decls.get(nm)
        if f is not None:
            return Ptr('fn:' + nm, 0)
        mod, g = self.prog.find_global(fr.mod, name)
        key = (mod.path, name) if g['internal'] else name
        if key not in self.globals:
            size = ir.sizeof(g['ty']) if not g['ext'] or g['ty'].kind in ('ptr', 'int') else None
            const = g['const'] or (g['internal'] and name not in mod.stored_globals and not self.prog.addr_taken(mod, name))
            rid = 'glob:%s' % (name if not g['internal'] else os.path.basename(mod.path) + name)
            R = Region(rid, nm, size if size is not None else 0, 'global', writable=not const)
            self.globals[key] = (rid, R, g, mod, const)
            self.regions[rid] = R
            R.const = const
            if const and g['init'] is not None:
                flat = ir_flat(g['ty'], g['init'])
                if flat is not None:
                    R.const_init = bytes(flat)
        rid, R, g, mod, const = self.globals[key]
        if rid not in st.mem and R.entry is not None:
            st.mem[rid] = R.entry
        if rid not in st.mem:
            if const and R.const_init is not None:
                data = R.const_init
                node = Base(lambda st2, off: (C(8, data[off]) if isc(off) and 0 <= off < len(data) else
                                              self.table_int(st2, R, off, 1)), R.name)
            elif const and g['init'] is not None:
                node, _ = self.byte_base('undef_' + R.name)
                node = self.init_typed(st, Frame(None, mod), node, 0, g['ty'], g['init'])
            else:
                node, _ = self.byte_base('glob_' + R.name)
            st.mem[rid] = node
            R.entry = node
        return Ptr(rid, 0)

    def init_typed(self, st, fr, node, off, ty, init):
        if init[0] == 'zero':
            return Range(node, off, off + ir.sizeof(ty), lambda st2, m: C(8, 0)) if ty.kind != 'ptr' else Store(node, off, 8, NULL)
        if ty.kind == 'int':
            return Store(node, off, ir.sizeof(ty), C(ty.w, init[1]))
        if ty.kind == 'ptr':
            return Store(node, off, 8, self.operand(st, fr, {}, ty, init))
        if ty.kind == 'array':
            if init[0] == 'bytes':
                for i, b in enumerate(init[1]):
                    node = Store(node, off + i, 1, C(8, b))
                return node
            es = ir.sizeof(ty.elem)
            for i, (t, v) in enumerate(init[1]):
                node = self.init_typed(st, fr, node, off + i * es, t, v)
            return node
        if ty.kind == 'struct':
            for i, (t, v) in enumerate(init[1]):
                node = self.init_typed(st, fr, node, off + ir.field_offset(ty, i), t, v)
            return node
        raise Unsupported('initialiser')

    def operand(self, st, fr, env, ty, o):
        k = o[0]
        if k == 'l':
            if o[1] not in env:
                raise Unsupported('value %s not available' % o[1])
            return env[o[1]]
        if k == 'c':
            return C(ty.w, o[1])
        if k == 'g':
            return self.glob(st, fr, o[1])
        if k == 'null':
            return NULL
        if k == 'undef':
            return UNDEF
        if k == 'zero':
            return C(ty.w, 0) if ty.kind == 'int' else NULL
        if k == 'gep':
            b = self.operand(st, fr, env, ir.PTR, o[2])
            return self.gep(st, b, o[1], [(t, self.operand(st, fr, env, t, v)) for t, v in o[3]])
        raise Unsupported('operand %r' % (o,))

    def as_index(self, st, v):
        if v.k == 'u' and v.raw is None and not isc(v.e) and not self.quiet:
            hi = rng(v.e)[1]
            if (hi is None or hi >= 1 << (v.w - 1)) and self.decide(st, lt(v.e, 1 << (v.w - 1))) is True:
                return v.e
        return as_s(v)

    def gep(self, st, p, ty, idx):
        if isinstance(p, Undef):
            raise Unsupported('address computed from an undefined pointer')
        off, bvi = p.off, p.bvi
        first = True
        for t, v in idx:
            if first:
                scale = ir.sizeof(ty)
                first = False
            elif ty.kind == 'array':
                ty = ty.elem
                scale = ir.sizeof(ty)
            elif ty.kind == 'struct':
                i = v.e
                off = add(off, ir.field_offset(ty, i))
                ty = ty.fields[i]
                continue
            else:
                raise Unsupported('gep')
            if isinstance(v, Undef):
                raise Unsupported('undefined index')
            if v.k == 'b' and p.r is not None and p.r in self.regions and self.regions[p.r].const_init is not None and bvi is None:
                e = v.e if v.w == 64 else z3.SignExt(64 - v.w, v.e)
                bvi = (keep(e), scale)
                continue
            if v.k == 'B':
                off = add(off, mul(If(v.e, 1, 0) if v.w > 1 else If(v.e, -1, 0), scale))
                continue
            off = add(off, mul(self.as_index(st, v), scale))
        if p.r is None and not (isc(off) and off == 0):
            return Ptr(None, off)
        return Ptr(p.r, off, bvi)

    # -------------------------------------------------- execution
    def call_function(self, f, args, st):
        """execute a body: list of (state, return value)"""
        f.cfg()
        self.executed.add(f.name)
        if self.depth > 24:
            raise Unsupported('call depth')
        self.depth += 1
        try:
            fr = Frame(f, f.mod)
            env = {}
            for (t, n), v in zip(f.params, args):
                env[n] = v
            st = st.copy()
            st.frames = st.frames + ((),)
            outs = self.run(fr, f.order[0], None, env, st, None)
        finally:
            self.depth -= 1
        res = []
        for o in outs:
            assert o[0] == 'ret'
            s = o[1]
            dead = s.frames[-1]
            if dead:
                s.freed = s.freed | frozenset(dead)
            s.frames = s.frames[:-1]
            res.append((s, o[2]))
        return res

    def run(self, fr, blk, prev, env, st, loop):
        """loop: (header, body) when running one iteration.  Outcomes: ('ret',st,v) ('exit',blk,prev,env,st) ('back',prev,env,st)"""
        f = fr.f
        outs = []
        work = [(blk, prev, env, st, True)]
        while work:
            blk, prev, env, st, first = work.pop()
            if loop:
                if blk == loop[0] and not first:
                    outs.append(('back', prev, env, st))
                    continue
                if blk not in loop[1]:
                    outs.append(('exit', blk, prev, env, st))
                    continue
            if blk in f.loops and not (loop and blk == loop[0] and first):
                for o in self.do_loop(fr, blk, prev, env, st):
                    work.append((o[1], o[2], o[3], o[4], False))
                continue
            if not (loop and blk == loop[0] and first):
                env = self.phis(fr, blk, prev, env, st)
            for o in self.block(fr, blk, env, st, 0):
                if o[0] == 'ret':
                    outs.append(o)
                else:
                    work.append((o[1], blk, o[2], o[3], False))
        return outs

    def phis(self, fr, blk, prev, env, st):
        ins = fr.f.blocks[blk]
        if not ins or ins[0].op != 'phi':
            return env
        new = {}
        for i in ins:
            if i.op != 'phi':
                break
            for v, b in i.a:
                if b == prev:
                    new[i.dst] = self.operand(st, fr, env, i.ty, v)
                    break
            else:
                raise Unsupported('phi without incoming edge')
        env = dict(env)
        env.update(new)
        return env

    def block(self, fr, blk, env, st, k):
        """execute from instruction k: outcomes ('ret',st,v) | ('br',succ,env,st)"""
        ins = fr.f.blocks[blk]
        outs = []
        env = dict(env)
        while True:
            i = ins[k]
            k += 1
            self.steps += 1
            op = i.op
            if op == 'phi' or op == 'nop':
                continue
            O = lambda t, v: self.operand(st, fr, env, t, v)
            if op == 'ret':
                return outs + [('ret', st, None if i.a[0] is None else O(i.ty, i.a[0]))]
            if op == 'unreachable':
                return outs
            if op == 'br':
                c, a, b = i.a
                if c is None:
                    return outs + [('br', a, env, st)]
                cv = O(ir.INT(1), c)
                if isinstance(cv, Undef):
                    raise Unsupported('branch on an undefined value')
                cond = as_bool(cv)
                if isinstance(cond, bool):
                    return outs + [('br', a if cond else b, env, st)]
                return outs + self.fork(st, env, [(cond, a), (Not(cond), b)])
            if op == 'switch':
                v, d, cs = i.a
                x = O(i.ty, v)
                alts, none = [], []
                for cval, target in cs:
                    c = as_bool(self.icmp(st, 'eq', i.ty.w, x, C(i.ty.w, cval)))
                    alts.append((c, target))
                    none.append(Not(c))
                alts.append((And(*none), d))
                return outs + self.fork(st, env, alts)
            if op == 'alloca':
                n = O(ir.INT(64), i.a[0])
                if n.k != 'c':
                    raise Unsupported('variable length array')
                rid = self.region(st, 'local' + i.dst, ir.sizeof(i.ty) * n.e, 'stack')
                self.regions[rid].ty = i.ty
                st.frames = st.frames[:-1] + (st.frames[-1] + (rid,),)
                env[i.dst] = Ptr(rid, 0)
                continue
            if op == 'load':
                env[i.dst] = self.load(st, O(ir.PTR, i.a[0]), i.ty, fr.f.name + ' ' + short(i))
                continue
            if op == 'store':
                v, p = O(i.ty, i.a[0]), O(ir.PTR, i.a[1])
                self.store(st, p, v, ir.sizeof(i.ty), fr.f.name + ' ' + short(i))
                continue
            if op == 'getelementptr':
                env[i.dst] = self.gep(st, O(ir.PTR, i.a[0]), i.ty, [(t, O(t, v)) for t, v in i.a[1]])
                continue
            if op == 'icmp':
                env[i.dst] = self.icmp(st, i.a[0], i.ty.w, O(i.ty, i.a[1]), O(i.ty, i.a[2]))
                continue
            if op in ('zext', 'sext', 'trunc'):
                env[i.dst] = self.cast(op, O(i.a[0], i.a[1]), i.ty.w)
                continue
            if op == 'ptrtoint':
                env[i.dst] = PI(O(i.a[0], i.a[1]))
                continue
            if op in ('inttoptr', 'bitcast'):
                v = O(i.a[0], i.a[1])
                if isinstance(v, PI):
                    v = v.p
                if not isinstance(v, Ptr) and op == 'inttoptr':
                    raise Unsupported('integer to pointer cast')
                env[i.dst] = v
                continue
            if op == 'select':
                c = as_bool(O(ir.INT(1), i.a[0]))
                a, b = O(i.ty, i.a[1]), O(i.ty, i.a[2])
                v = self.select(c, a, b)
                if v is None:
                    for cc, vv in ((c, a), (Not(c), b)):
                        if not self.feasible(st, cc):
                            continue
                        s2, e2 = st.copy(), dict(env)
                        s2.add(cc)
                        e2[i.dst] = vv
                        outs += self.block(fr, blk, e2, s2, k)
                    return outs
                env[i.dst] = v
                continue
            if op == 'freeze':
                v = O(i.ty, i.a[0])
                env[i.dst] = v
                continue
            if op == 'call':
                res = self.call(fr, i, env, st)
                if len(res) == 1:
                    st, v = res[0]
                    if i.dst:
                        env[i.dst] = v
                    continue
                for s2, v in res:
                    e2 = dict(env)
                    if i.dst:
                        e2[i.dst] = v
                    outs += self.block(fr, blk, e2, s2, k)
                return outs
            if op in ('add', 'sub', 'mul', 'udiv', 'sdiv', 'urem', 'srem', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr'):
                env[i.dst] = self.binop(st, op, i.flags, i.ty.w, O(i.ty, i.a[0]), O(i.ty, i.a[1]), fr.f.name + ' ' + short(i))
                continue
            raise Unsupported('instruction ' + i.text.strip())

    def fork(self, st, env, alts):
        out = []
        self.brdec += 1
        live = [(c, t) for c, t in alts if c is not False and self.feasible(st, c)]
        for n, (c, t) in enumerate(live):
            s2 = st.copy() if n < len(live) - 1 else st
            s2.add(c)
            out.append(('br', t, dict(env) if n < len(live) - 1 else env, s2))
        return out

    def call(self, fr, i, env, st):
        callee, args = i.a
        if not callee.startswith('@'):
            raise Unsupported('indirect call')
        name = callee[1:].strip('"')
        vals = [self.operand(st, fr, env, t, v) for t, v in args]
        if name in self.contracts:
            self.used.add(name)
            return self.contracts[name].call(self, st, vals)
        from .models import MODELS
        m = MODELS.get(name)
        if m is None and name.startswith('llvm.'):
            m = MODELS.get('.'.join(name.split('.')[:2]))
        f = self.prog.find_func(fr.mod, name)
        if f is None or (m is not None and f is None):
            if m is None:
                raise Unsupported('call of unknown function ' + name)
            self.trusted.add(name)
            return m(self, st, vals, fr)
        return self.call_function(f, vals, st)

    # -------------------------------------------------- loops: see loops.py
    def do_loop(self, fr, header, prev, env, st):
        from .loops import do_loop
        return do_loop(self, fr, header, prev, env, st)


def short(i):
    import re
    return re.sub(r', !.*', '', i.text.strip())[:100]


def ir_flat(ty, init):
    """bytes of a constant without pointers, else None"""
    if init[0] == 'zero':
        return bytes(ir.sizeof(ty)) if not has_ptr(ty) else None
    if init[0] == 'undef':
        return bytes(ir.sizeof(ty))
    if ty.kind == 'int':
        return (init[1] & ((1 << ty.w) - 1)).to_bytes(ir.sizeof(ty), 'little')
    if ty.kind == 'array':
        if init[0] == 'bytes':
            return init[1]
        out = b''
        for t, v in init[1]:
            x = ir_flat(t, v)
            if x is None:
                return None
            out += x
        return out
    if ty.kind == 'struct':
        out = bytearray(ir.sizeof(ty))
        for k, (t, v) in enumerate(init[1]):
            x = ir_flat(t, v)
            if x is None:
                return None
            o = ir.field_offset(ty, k)
            out[o:o + len(x)] = x
        return bytes(out)
    return None


def has_ptr(ty):
    if ty.kind == 'ptr':
        return True
    if ty.kind == 'array':
        return has_ptr(ty.elem)
    if ty.kind == 'struct':
        return any(has_ptr(f) for f in ty.fields)
    return False


class Program:
    """all modules of the library, compiled from /repo's working tree"""

    def __init__(self, mods):
        self.mods = mods
        self.funcs = {}
        self.globs = {}
        for m in mods:
            for n, f in m.funcs.items():
                if not f.internal:
                    self.funcs.setdefault(n, f)
            for n, g in m.globals.items():
                if not g['ext'] and not g['internal']:
                    self.globs[n] = (m, g)
        self._taken = {}

    def find_func(self, mod, name):
        f = mod.funcs.get(name)
        if f is not None:
            return f
        return self.funcs.get(name)

    def any_func(self, name):
        if name in self.funcs:
            return self.funcs[name]
        for m in self.mods:
            if name in m.funcs:
                return m.funcs[name]
        return None

    def find_global(self, mod, name):
        g = mod.globals.get(name)
        if g is not None and not g['ext']:
            return mod, g
        if name in self.globs:
            return self.globs[name]
        if g is not None:
            return mod, g
        raise Unsupported('global ' + name)

    def addr_taken(self, mod, name):
        """is the address of an internal global used other than by direct loads?"""
        key = (mod.path, name)
        if key in self._taken:
            return self._taken[key]

        def uses(o):
            return isinstance(o, tuple) and o and ((o[0] == 'g' and o[1] == name) or (o[0] == 'gep' and uses(o[2])) or
                                                   (o[0] == 'agg' and any(uses(v) for _, v in o[1])))
        r = False
        for f in mod.funcs.values():
            for b in f.blocks.values():
                for i in b:
                    if i.op == 'load':
                        continue
                    if i.op == 'getelementptr':
                        if uses(i.a[0]):
                            r = r or self._gep_escapes(f, i.dst)
                        continue
                    ops = []
                    if i.op == 'call':
                        ops = [v for _, v in i.a[1]]
                    elif i.op == 'store':
                        ops = [i.a[0]]
                        if uses(i.a[1]):
                            r = True
                    elif i.op == 'phi':
                        ops = [v for v, _ in i.a]
                    elif i.op in ('select', 'icmp'):
                        ops = [x for x in i.a if isinstance(x, tuple)]
                    elif i.op in ('ret', 'ptrtoint', 'inttoptr', 'bitcast', 'freeze'):
                        ops = [x for x in i.a if isinstance(x, tuple)]
                    if any(uses(o) for o in ops):
                        r = True
        for n, g in mod.globals.items():
            if g['init'] is not None and uses(g['init']):
                r = True
        self._taken[key] = r
        return r

    def _gep_escapes(self, f, dst):
        for b in f.blocks.values():
            for i in b:
                if i.op == 'load':
                    continue
                txt = repr(i.a)
                if "('l', '%s')" % dst in txt:
                    return True
        return False
