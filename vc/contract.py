"""Function contracts: set-up of an arbitrary caller state satisfying the precondition, the postcondition, and the
effect a caller may assume.  verify() executes the real body against the contract."""
import time
import traceback
import z3
from .arith import *
from .arith import fresh_id
from .engine import Ex, State, Ob, Base, Store, Range, Quant, Unsupported, Give, Ptr, NULL, Region

from . import models          # noqa: F401

CONTRACTS = {}


def register(c):
    CONTRACTS[c.name] = c()
    return c


class Contract:
    name = ''
    func = None            # name in the program, default: name
    intmode = False
    uses = ()              # contracts assumed at call sites (each verified on its own)
    budget = 600
    ms = 20000
    props = ()
    module_state = False   # may modify global data
    anf = False            # prove word equalities by algebraic normal form first

    def setup(self, ex, st):
        raise NotImplementedError

    def post(self, ex, st, ret, c):
        pass

    def call(self, ex, st, vals):
        raise Unsupported('no caller-side contract for ' + self.name)


class Done(Exception):
    pass


class Ctx:
    pass


# ---------------------------------------------------------------- building blocks for set-ups
def size_param(ex, st, name, lo=0, hi=(1 << 61)):
    e = ex.newint(st, name, lo, hi)
    ex.inputs.append((name, 'int', e))
    return e


def in_buf(ex, st, name, size, writable=False, intmode=None):
    """a fresh input block of exactly `size` bytes"""
    b, f = ex.byte_base(name, intmode)
    rid = ex.region(st, name, size, 'heap', writable=writable, content=b)
    ex.inputs.append((name, 'bytes', (f, size)))
    return rid, f


def out_buf(ex, st, name, size):
    return ex.region(st, name, size, 'heap', writable=True)


def int_param(ex, st, name, w=32):
    e = ex.fbv(name, w)
    ex.inputs.append((name, 'bv', e))
    return IV(w, 'b', e)


def skolem(ex, st, name, lo, hi):
    """an arbitrary index lo <= j < hi; returns None when the range is empty in this state"""
    j = ex.newint(st, name, lo if isc(lo) else None, None)
    if not isc(lo):
        st.add(le(lo, j))
    st.add(lt(j, hi))
    if not isc(hi):
        _, h = rng(hi)
        b = BOUNDS.get(j.get_id(), (None, None))
        bound(j, b[0], None if h is None else h - 1)
    else:
        bound(j, BOUNDS[j.get_id()][0], hi - 1)
    if not ex.feasible(st, z3.BoolVal(True)):
        return None
    st.term(j)
    return j


def byte_at(ex, st, rid, off):
    return ex.read8(st, st.mem[rid], off)


def bv8(ex, st, rid, off):
    return as_bv(byte_at(ex, st, rid, off))


def oblige_eq8(ex, st, a, b, name):
    from .loops import eq8
    return ex.oblige(st, eq8(a, b), name)


def inst_apps(st, f):
    """instantiate the quantified facts at every index at which f occurs in the path"""
    seen, todo = set(), list(st.pc)
    out = []
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_app(x):
            if x.num_args() == 1 and x.decl().eq(f):
                out.append(x.arg(0))
            todo.extend(x.children())
    for t in out:
        st.term(t.as_long() if z3.is_int_value(t) else t)


class Result:
    def __init__(self, name):
        self.name, self.obs, self.paths, self.t = name, [], 0, 0.0
        self.used, self.trusted, self.executed = set(), set(), set()
        self.error = None
        self.summarised, self.unrolled = set(), set()
        self.checks, self.solver_t = 0, 0.0


def verify(prog, con, contracts=None, on_fail=None, grace=75):
    contracts = CONTRACTS if contracts is None else contracts
    t0 = time.time()
    if getattr(con, 'release', False):
        prog = prog.release
    res = Result(con.name)
    use = {n: contracts[n] for n in con.uses if n in contracts and n != con.name}
    ex = Ex(prog, use, con.intmode, con.name)
    ex.ms = con.ms
    ex.may_init = con.module_state
    RAW[0] = con.anf
    if con.anf:
        from .anf import Anf
        ex.anf = Anf()
    ex.deadline = t0 + con.budget
    ex.on_fail, ex.grace = on_fail, grace
    try:
        if hasattr(con, 'data'):
            con.data(ex, prog)
            res.paths = 1
            raise Done()
        f = prog.any_func(con.func or con.name)
        if f is None:
            raise Unsupported('function %s not found in /repo' % (con.func or con.name))
        st = State()
        args, c = con.setup(ex, st)
        if not ex.feasible(st, z3.BoolVal(True)):
            raise Unsupported('contradictory precondition')
        outs = ex.call_function(f, args, st)
        for s, r in outs:
            if not ex.feasible(s, z3.BoolVal(True)):
                continue
            res.paths += 1
            ex.oblige(s, len(s.g.get('live', ())) == 0, 'every allocated block is freed')
            if not con.module_state:
                same = all(s.mem[rid] is ex.regions[rid].entry for rid in s.mem if rid in ex.regions and ex.regions[rid].kind == 'global' and
                           ex.regions[rid].writable)
                ex.oblige(s, same, 'module state and global data are not modified')
            ex.oblige(s, len(s.g.get('open', ())) == 0, 'every opened descriptor is closed')
            Ob.phase = 'post'
            con.post(ex, s.copy(), r, c)
            Ob.phase = 'body'
        if hasattr(con, 'done'):
            Ob.phase = 'post'
            con.done(ex, outs, c)
        elif not res.paths:
            raise Unsupported('no path of the function returns')
    except Done:
        pass
    except (Unsupported, Give) as e:
        res.error = str(e)
    except RecursionError:
        res.error = 'recursion limit'
    except Exception as e:
        res.error = 'internal: %s: %s' % (type(e).__name__, e)
        res.trace = traceback.format_exc()
    Ob.phase = 'body'
    res.obs = ex.obs
    if res.error:
        res.obs.append(Ob(con.name, 'the verifier processed the whole body: ' + res.error, False, 'none', 0.0))
    res.used, res.trusted, res.executed = set(ex.used), set(ex.trusted), set(ex.executed)
    res.summarised, res.unrolled = set(ex.summarised), set(ex.unrolled_loops)
    res.checks, res.solver_t, res.t = ex.inc.n, ex.inc.t, time.time() - t0
    return res
