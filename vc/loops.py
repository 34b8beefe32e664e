"""Loops: exact unrolling when the trip count is concrete or provably small, otherwise an inductive summary.

A summary proposes, for a ghost iteration counter k >= 0, an invariant at the loop header (affine variables, last-set
variables with a witness iteration, folds named by the contract, interval-wise memory maps, and the fact that the
back-edge condition held for every earlier iteration) and then *checks* it: one symbolic iteration from the proposed
header state must re-establish it at k+1, each part being a recorded obligation.  The proposal itself is untrusted."""
import os
import sys
import time
import z3
from .arith import *
from . import arith as A
from .engine import Base, Store, Range, Quant, Unsupported, Give, Ptr, Ob, show

MAXUNROLL = 300


class Fail(Exception):
    def __init__(self, what, drop=None):
        Exception.__init__(self, what)
        self.drop = drop


def dbg(*a):
    if os.environ.get('VC_LOOPS'):
        print('  loop:', *a, file=sys.stderr)


# ---------------------------------------------------------------- symbols of a term
_syms = {}


def syms(e):
    """ids of the generated symbols (name!id) in a term"""
    if isinstance(e, (int, bool)):
        return frozenset()
    i = e.get_id()
    r = _syms.get(i)
    if r is not None:
        return r
    stack = [e]
    while stack:
        x = stack[-1]
        xi = x.get_id()
        if xi in _syms:
            stack.pop()
            continue
        ch = x.children()
        todo = [c for c in ch if c.get_id() not in _syms]
        if todo:
            stack.extend(todo)
            continue
        s = frozenset()
        for c in ch:
            s = s | _syms[c.get_id()]
        if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            n = x.decl().name()
            p = n.rfind('!')
            if p >= 0 and n[p + 1:].isdigit():
                s = s | {int(n[p + 1:])}
        keep(x)
        _syms[xi] = s
        stack.pop()
    return _syms[i]


def closed(e, start, kid):
    return all(s <= start or s == kid for s in syms(e))


def subst(e, k, t):
    if isinstance(e, (int, bool)):
        return e
    if kidof(k) not in syms(e):
        return e
    r = keep(z3.substitute(e, (k, ival(t))))
    b = BOUNDS.get(e.get_id())
    if b is not None and r.get_id() not in BOUNDS:
        BOUNDS[r.get_id()] = b
    if z3.is_int_value(r):
        return r.as_long()
    return r


def kidof(k):
    n = k.decl().name()
    return int(n[n.rfind('!') + 1:])


def vsub(v, k, t):
    if isinstance(v, IV):
        if v.k == 'c':
            return v
        e = subst(v.e, k, t)
        if isinstance(e, int):
            return C(v.w, e)
        if v.k == 'b':
            return BV(v.w, e)
        return IV(v.w, v.k, e)
    if isinstance(v, Ptr):
        return Ptr(v.r, subst(v.off, k, t))
    raise Unsupported('substitution')


def vclosed(v, start, kid):
    if isinstance(v, IV):
        return closed(v.e, start, kid)
    if isinstance(v, Ptr):
        return v.bvi is None and v.r != '?' and closed(v.off, start, kid)
    return False


def same(a, b):
    """syntactic equality of values"""
    if isinstance(a, IV) and isinstance(b, IV):
        if a.w != b.w:
            return False
        if a.k == 'c' or b.k == 'c':
            return a.k == b.k and a.e == b.e
        return a.k == b.k and a.e.eq(b.e)
    if isinstance(a, Ptr) and isinstance(b, Ptr):
        d = sub(a.off, b.off)
        return a.r == b.r and isc(d) and d == 0 and a.bvi is None and b.bvi is None
    return a is b


def vdiff(a, b):
    """constant difference a - b of affine values or None"""
    if isinstance(a, Ptr) and isinstance(b, Ptr):
        if a.r != b.r or a.bvi is not None or b.bvi is not None:
            return None
        d = sub(a.off, b.off)
        return d if isc(d) else None
    if isinstance(a, IV) and isinstance(b, IV) and a.w == b.w:
        if a.k in 'us' or b.k in 'us':
            if a.k == 'b' or b.k == 'b' or a.k == 'B' or b.k == 'B':
                return None
            # the fresh header variable decides between the signed and the unsigned reading
            if b.k == 's':
                d = sub(as_s(a), b.e)
            else:
                d = sub(a.e if a.k == 'u' else as_u(a), as_u(b))
            return d if isc(d) else None
    return None


# ---------------------------------------------------------------- entry point
def named(ex, st, e):
    """a constant equal to a large integer term"""
    if isc(e) or (len(lin(e)[1]) <= 1 or ex.canon) and all(z3.is_const(a) for c, a in lin(e)[1].values()):
        return e
    memo = st.g.get('named', ())
    for t, x in memo:
        if t.eq(e):
            return x
    lo, hi = rng(e)
    x = ex.newint(st, 'v', lo, hi)
    st.add(keep(x == e))
    st.g['named'] = memo + ((e, x),)
    return x


def name_terms(ex, f, header, env0, st):
    env = dict(env0)
    for i in f.blocks[header]:
        if i.op == 'phi':
            v = env0[i.dst]
            if isinstance(v, Ptr):
                env[i.dst] = Ptr(v.r, named(ex, st, v.off))
            elif isinstance(v, IV) and v.k == 'u':
                env[i.dst] = U(v.w, named(ex, st, v.e))
    return env


def do_loop(ex, fr, header, prev, env, st):
    outs = do_loop_env(ex, fr, header, ex.phis(fr, header, prev, env, st), st)
    return [canonical(ex, fr, header, o) for o in outs] if ex.canon else outs


def canonical(ex, fr, header, o):
    """name loop variables at the exit of a loop by the terms of the specification they are proved equal to"""
    if o[0] != 'exit' or ex.quiet:
        return o
    env, st = o[3], o[4]
    new = None
    for i in fr.f.blocks[header]:
        if i.op != 'phi':
            continue
        v = env.get(i.dst)
        if isinstance(v, Ptr):
            e, cands = v.off, ex.canon.get(v.r, ())
        elif isinstance(v, IV) and v.k in 'us':
            e, cands = v.e, ex.canon.get(None, ())
        else:
            continue
        if isc(e):
            continue
        for c in cands:
            if hooks_same(e, c):
                break
            if ex.decide(st, eq(e, c), 1000) is True:
                new = new if new is not None else dict(env)
                new[i.dst] = Ptr(v.r, c) if isinstance(v, Ptr) else IV(v.w, v.k, c)
                break
    return o if new is None else o[:3] + (new,) + o[4:]


def hooks_same(a, b):
    d = sub(a, b)
    return isc(d) and d == 0


def do_loop_env(ex, fr, header, env0, st):
    f = fr.f
    body = f.loops[header]
    loop = (header, body)
    if ex.name_terms:
        env0 = name_terms(ex, f, header, env0, st)
    for h in ex.hooks:
        r = h(ex, fr, header, env0, st)
        if r is not None:
            return r
    outs = []
    work = [(env0, st, 0)]
    total = 0
    while work:
        e, s, n = work.pop()
        if n == 0 and fold_loop(ex, fr, loop, e, s):
            nobs = len(ex.obs)
            ex.tent += 1
            try:
                r = summary(ex, fr, loop, e, s, {('tryunroll',)})
                ex.summarised.add((f.name, header))
                outs += r
                continue
            except (Fail, Unsupported) as x:
                dbg(f.name, header, 'not a fold after all:', x)
                del ex.obs[nobs:]
            finally:
                ex.tent -= 1
        if concrete_header(ex, fr, loop, e, s):
            if n > MAXUNROLL:
                raise Unsupported('loop %s of %s: too many iterations to unroll' % (header, f.name))
            ex.unrolled_loops.add((f.name, header))
            for o in ex.run(fr, header, None, e, s.copy(), loop):
                if o[0] == 'back':
                    total += 1
                    if total > 3000:
                        raise Unsupported('loop %s of %s: too many paths' % (header, f.name))
                    work.append((ex.phis(fr, header, o[1], o[2], o[3]), o[3], n + 1))
                else:
                    outs.append(o)
            continue
        outs += symbolic(ex, fr, loop, e, s, n)
    return outs


def fold_loop(ex, fr, loop, env, st):
    """does the loop continue a fold of the contract?  then a summary is better than unrolling"""
    if not any(fd.kind == 'scalar' for fd in ex.folds):
        return False
    for i in fr.f.blocks[loop[0]]:
        if i.op == 'phi' and match_fold(ex, st, env[i.dst], i.dst, set()) is not None:
            return True
    return False


def concrete_header(ex, fr, loop, env, st):
    """is the decision taken in the loop's exiting block syntactically concrete in this iteration?"""
    header, body = loop
    f = fr.f
    t = f.blocks[header][-1]
    exiting = t.op == 'br' and t.a[0] is not None and (t.a[1] not in body or t.a[2] not in body)
    ex.quiet += 1
    nobs = len(ex.obs)
    try:
        if exiting:
            r = ex.block(fr, header, dict(env), st.copy(), 0)
            return len(r) == 1 and len(r[0][3].pc) == len(st.pc)
        # do-while shape: a whole iteration without forks
        r = ex.run(fr, header, None, dict(env), st.copy(), loop)
        return len(r) == 1 and len(r[0][-1].pc) == len(st.pc)
    except Unsupported:
        return False
    finally:
        ex.quiet -= 1
        del ex.obs[nobs:]


def symbolic(ex, fr, loop, env, st, n0):
    f, header = fr.f, loop[0]
    nobs = len(ex.obs)
    drop = set()
    why = None
    for attempt in range(6):
        ex.tent += 1
        try:
            r = summary(ex, fr, loop, env, st, drop)
            ex.summarised.add((f.name, header))
            return r
        except Unrolled as e:
            ex.unrolled_loops.add((f.name, header))
            return e.outs
        except Fail as e:
            del ex.obs[nobs:]
            dbg(f.name, header, 'candidate rejected:', e, e.drop)
            why = e
            if e.drop is None or e.drop in drop:
                break
            drop.add(e.drop)
        except Unsupported as e:
            del ex.obs[nobs:]
            dbg(f.name, header, 'no summary:', e)
            why = e
            break
        finally:
            ex.tent -= 1
    # bounded unrolling, accepted only when the solver refutes one more iteration
    outs = unroll(ex, fr, loop, env, st, ex.unroll_hint.get(f.name, ex.unroll), 600, why)
    ex.unrolled_loops.add((f.name, header))
    return outs


def unroll(ex, fr, loop, env, st, limit, paths, why, seconds=None):
    f, header = fr.f, loop[0]
    t0 = time.time()
    outs, work, cnt = [], [(env, st, 0)], 0
    while work:
        e, s, n = work.pop()
        if n > limit or seconds is not None and time.time() - t0 > seconds:
            raise Unsupported('loop %s of %s: neither an inductive summary (%s) nor a bounded unrolling' % (header, f.name, why))
        for o in ex.run(fr, header, None, e, s.copy(), loop):
            if o[0] == 'back':
                cnt += 1
                if cnt > paths:
                    raise Unsupported('loop %s of %s: too many paths (%s)' % (header, f.name, why))
                work.append((ex.phis(fr, header, o[1], o[2], o[3]), o[3], n + 1))
            else:
                outs.append(o)
    return outs


class Unrolled(Exception):
    def __init__(self, outs):
        Exception.__init__(self, 'unrolled')
        self.outs = outs


def try_unroll(ex, fr, loop, env, st):
    """exact unrolling if it provably terminates within a few iterations, else None"""
    nobs = len(ex.obs)
    ex.tent += 1
    try:
        return unroll(ex, fr, loop, dict(env), st.copy(), ex.tryunroll, 60, '', 20)
    except Unsupported as e:
        dbg(fr.f.name, loop[0], 'no unrolling:', e)
        del ex.obs[nobs:]
        return None
    finally:
        ex.tent -= 1


# ---------------------------------------------------------------- summary
class L:
    pass


def fresh_like(ex, st, name, v, mode):
    """an arbitrary value of the type of v"""
    if mode == 'ptr':
        return Ptr(v.r, ex.fint(name))
    if mode == 'anyptr':
        return Ptr('?', 0)
    w = v.w
    if mode == 'int':
        if w >= 64:
            e = ex.fint(name, 0, (1 << w) - 1)
            st.add(keep(z3.And(e >= 0, e < (1 << w))))
            return IV(w, 'u', e)
        e = ex.fint(name, -(1 << (w - 1)), (1 << (w - 1)) - 1)
        st.add(keep(z3.And(e >= -(1 << (w - 1)), e < (1 << (w - 1)))))
        return IV(w, 's', e)
    if mode == 'uint':
        e = ex.fint(name, 0, (1 << w) - 1)
        st.add(keep(z3.And(e >= 0, e < (1 << w))))
        return IV(w, 'u', e)
    return IV(w, 'b', ex.fbv(name, w))


def mode_of(ex, v):
    if isinstance(v, Ptr):
        return 'ptr' if v.r is not None and v.bvi is None else 'anyptr'
    if isinstance(v, IV):
        if v.k == 'b' or (v.k in 'cB' and v.w < 32 and not ex.intmode):
            return 'bv'
        if v.k == 'B':
            return 'int' if v.w >= 32 else 'bv'
        return 'int'
    if isinstance(v, Undef):
        return 'undef'
    raise Unsupported('loop variable')


def iterate(ex, fr, loop, env, st):
    """one quiet iteration; outcomes"""
    ex.quiet += 1
    try:
        return ex.run(fr, loop[0], None, dict(env), st.copy(), loop)
    finally:
        ex.quiet -= 1


def chain(node, stop):
    """writes on top of a node, newest first"""
    out = []
    while node is not stop:
        if isinstance(node, Base):
            return None
        out.append(node)
        node = node.prev
    return out


def wspan(n):
    return (n.off, n.n) if isinstance(n, Store) else (n.lo, sub(n.hi, n.lo))


def summary(ex, fr, loop, env0, st0, drop):
    f, header = fr.f, loop[0]
    phis = [i for i in f.blocks[header] if i.op == 'phi']
    names = [i.dst for i in phis]
    entry = {d: env0[d] for d in names}
    modes = {d: mode_of(ex, v) for d, v in entry.items()}
    mods, gmods = [], set()

    # ---- pass 1: which variables are affine, which memory changes
    for _ in range(12):
        st = st0.copy()
        env = dict(env0)
        cur = {}
        for d in names:
            cur[d] = UNDEF if modes[d] == 'undef' else fresh_like(ex, st, 'p' + d.strip('%'), entry[d], modes[d])
            env[d] = cur[d]
        nodes = {}
        for r in mods:
            nodes[r], _f = ex.byte_base('hv_' + ex.regions[r].name)
            st.mem[r] = nodes[r]
        for g in gmods:
            st.g[g] = ex.fint('g_' + str(g), 0, None)
            st.add(keep(st.g[g] >= 0))
        gcur = dict(st.g)
        base_mem = dict(st.mem)
        outs = iterate(ex, fr, loop, env, st)
        backs = [o for o in outs if o[0] == 'back']
        again = False
        for o in outs:
            s = o[-1]
            for r, n in s.mem.items():
                if r in base_mem and n is not base_mem[r] and r not in mods:
                    if o[0] == 'back':
                        mods.append(r)
                        again = True
            if o[0] == 'back':
                for g, v in s.g.items():
                    if g == 'named':
                        continue
                    if g not in gcur or not (v is gcur[g] or (isc(v) and isc(gcur[g]) and v == gcur[g])):
                        if g not in gmods:
                            if g not in gcur:
                                raise Unsupported('ghost state created in a loop')
                            if not (isc(gcur[g]) or z3.is_expr(gcur[g])):
                                raise Unsupported('ghost state %s' % g)
                            gmods.add(g)
                            again = True
                if s.freed != st0.freed:
                    raise Unsupported('memory freed in a loop')
                nx = ex.phis(fr, header, o[1], o[2], s)
                for d in names:
                    v = nx[d]
                    if modes[d] == 'undef' and not isinstance(v, Undef):
                        modes[d] = 'undefset'
                    if modes[d] == 'int' and isinstance(v, IV) and v.k == 'b':
                        modes[d] = 'bv'
                        again = True
                    elif modes[d] == 'int' and isinstance(v, IV) and v.k == 'u' and v.w == 32 and vdiff(v, cur[d]) is None and ('u', d) not in drop:
                        modes[d] = 'uint'
                        again = True
                    elif modes[d] == 'ptr' and not (isinstance(v, Ptr) and v.r == entry[d].r):
                        modes[d] = 'anyptr'
                        again = True
        if not again:
            break
    else:
        raise Unsupported('loop analysis does not stabilise')
    for d in names:
        if modes[d] == 'undefset':
            modes[d] = 'undef'
    if not backs:
        return [o for o in ex.run(fr, header, None, dict(env0), st0.copy(), loop)]
    nexts = [ex.phis(fr, header, o[1], o[2], o[3]) for o in backs]
    affine = {}
    for d in names:
        if modes[d] in ('undef',):
            continue
        if modes[d] == 'anyptr':
            if all(isinstance(nx[d], Ptr) and nx[d].r == '?' for nx in nexts):
                affine[d] = 0
            continue
        if modes[d] == 'bv':
            if all(same(nx[d], cur[d]) for nx in nexts):
                affine[d] = 0
            continue
        ds = [vdiff(nx[d], cur[d]) for nx in nexts]
        if ds and all(x is not None and x == ds[0] for x in ds) and ('affine', d) not in drop:
            affine[d] = ds[0]
    gaff = {}
    for g in gmods:
        ds = [sub(o[3].g[g], gcur[g]) for o in backs]
        if all(isc(x) and x == ds[0] for x in ds):
            gaff[g] = ds[0]

    # ---- pass 2: with the ghost counter
    k = ex.fint('k', 0, None)
    kid = kidof(k)

    def header_env(s, kk, fresh):
        e = dict(env0)
        for d in names:
            if d in affine:
                c = affine[d]
                v = entry[d]
                if c == 0:
                    e[d] = v
                elif isinstance(v, Ptr):
                    e[d] = Ptr(v.r, add(v.off, mul(kk, c)))
                elif modes[d] == 'int' and v.w < 64:
                    e[d] = IV(v.w, 's', add(as_s(v), mul(kk, c)))
                else:
                    e[d] = IV(v.w, 'u', add(as_u(v), mul(kk, c)))
                x = e[d]
                if isinstance(x, IV) and isc(x.e):
                    e[d] = C(x.w, x.e)
            elif fresh is not None:
                e[d] = fresh(d, s)
        return e

    def range_facts(s, e):
        for d in names:
            if affine.get(d) and isinstance(e[d], IV) and not isc(e[d].e):
                x, w = e[d], e[d].w
                lo, hi = (0, (1 << w) - 1) if x.k == 'u' else (-(1 << (w - 1)), (1 << (w - 1)) - 1)
                s.add(And(le(lo, x.e), le(x.e, hi)))

    st = st0.copy()
    st.add(keep(k >= 0))
    env = header_env(st, k, lambda d, s: UNDEF if modes[d] == 'undef' else fresh_like(ex, s, 'p' + d.strip('%'), entry[d], modes[d]))
    cur = {d: env[d] for d in names}
    range_facts(st, env)
    nodes = {}
    fresh_ids = set()
    for r in mods:
        nodes[r], hf = ex.byte_base('hv_' + ex.regions[r].name)
        fresh_ids.add(int(hf.name()[hf.name().rfind('!') + 1:]))
        st.mem[r] = nodes[r]
    for g in gmods:
        if g in gaff:
            st.g[g] = add(st0.g[g], mul(k, gaff[g]))
        else:
            st.g[g] = ex.newint(st, 'g_' + str(g), 0, None)
    start = A._counter[0]      # everything generated later belongs to the iteration
    for d in names:
        if d not in affine and isinstance(cur[d], (IV, Ptr)) and modes[d] != 'anyptr':
            fresh_ids |= syms(cur[d].e if isinstance(cur[d], IV) else cur[d].off)

    def isclosed(e):
        return all((s <= start and s not in hv) or s == kid for s in syms(e))
    hv = set(x for x in fresh_ids if x is not None)
    for g in gmods:
        if g not in gaff:
            hv |= syms(st.g[g])
    n0 = len(st.pc)
    hi = None
    for again in (0, 1):
        t0 = time.time()
        outs = iterate(ex, fr, loop, env, st)
        backs = [o for o in outs if o[0] == 'back']
        if not backs:
            return ex.run(fr, header, None, dict(env0), st0.copy(), loop)
        nexts = [ex.phis(fr, header, o[1], o[2], o[3]) for o in backs]
        conds = []
        for o in backs:
            conds.append(And(*[c for c in o[3].pc[n0:] if isclosed(c)]))
        phi = Or(*conds)
        phi_ob = Or(*[And(*[c for c in o[3].pc[n0:] if isclosed(c) and c.get_id() not in ex.axioms]) for o in backs])
        hi = khi(phi, k, kid, ex, st0)
        if again or hi is None or time.time() - t0 > 10:
            break
        # addresses normalise better with the bound known: once more
        BOUNDS[k.get_id()] = (0, hi)

    # a provably bounded number of iterations with nothing inductive to say is better unrolled
    havocs = []
    sets = {}
    for d in names:
        if d in affine or modes[d] == 'undef':
            continue
        if ('set', d) not in drop:
            cs = classify_set(d, cur, nexts, conds, isclosed) or classify_flag(d, cur, entry[d], nexts, conds, isclosed)
            if cs is not None:
                sets[d] = cs
                continue
        havocs.append(d)

    # ---- memory
    maps, fixed = {}, {}
    for r in mods:
        R = ex.regions[r]
        ws = [chain(o[3].mem[r], nodes[r]) for o in backs]
        if any(w is None for w in ws):
            raise Unsupported('memory replaced in a loop')
        m = classify_mem(ex, r, ws, conds, backs, k, kid, isclosed, drop)
        if m[0] == 'map':
            maps[r] = m
        else:
            fixed[r] = m

    # ---- folds named by the contract
    folds = {}
    for d in list(havocs):
        fd = match_fold(ex, st0, entry[d], d, drop)
        if fd is not None:
            folds[d] = fd
            havocs.remove(d)
    mfolds = {}
    for r in list(fixed):
        fd = match_mem_fold(ex, st0, r, fixed[r], drop)
        if fd is not None:
            mfolds[r] = fd
    dbg(f.name, header, 'affine', {d: c for d, c in affine.items()}, 'sets', list(sets), 'maps', list(maps), 'fixed', list(fixed),
        'folds', list(folds), list(mfolds), 'havoc', havocs)

    if (havocs or any(r not in mfolds for r in fixed)) and ('tryunroll',) not in drop and not ex.nounroll:
        # values not captured by the invariant: prefer exact unrolling when it terminates quickly
        if bounded_trip(ex, st0, phi, k, kid):
            raise Unsupported('few iterations')
        key = (f.name, header)
        if key not in ex.nounroll_loops:
            r = try_unroll(ex, fr, loop, env0, st0)
            if r is not None:
                raise Unrolled(r)
            ex.nounroll_loops.add(key)

    # upper bound of k for cheap range reasoning
    if hi is not None:
        BOUNDS[k.get_id()] = (0, hi)
    if not ex.quiet:
        # (a loop that writes one more cell of a finite object in every iteration ends, too: each write is in bounds)
        ex.obs.append(Ob(ex.name, '%s loop %s: ends after finitely many iterations' % (f.name, header),
                         bool(maps) or ends(ex, st0, phi, k, kid), 'syntactic', 0, None, 'no bound on the number of iterations follows from the loop condition ' + show(phi)))

    # ---- the header state
    def mk_header(s, kk):
        """variants (state, env, info) of the header at iteration kk"""
        variants = [(s, {}, [])]
        for d, cs in sets.items():
            nv = []
            for (s1, e1, inf) in variants:
                a = s1.copy()
                a.quant(Quant(0, kk, lambda j, cs=cs: subst(cs['noset'], k, j), 'noset ' + d))
                inst_terms(a, cs['noset'], k, kid, kk)
                ea = dict(e1)
                ea[d] = entry[d]
                nv.append((a, ea, inf + [(d, None)]))
                b = s1.copy()
                w = ex.newint(b, 'w', 0, None)
                if hi is not None:
                    bound(w, 0, max(hi - 1, 0))
                b.add(lt(w, kk))
                b.add(subst(cs['set'], k, w))
                q = Quant(add(w, 1), kk, lambda j, cs=cs: subst(cs['noset'], k, j), 'noset ' + d)
                b.quant(q)
                if cs['noset'] is not False:
                    inst_terms(b, cs['noset'], k, kid, kk, w)
                else:
                    b.add(eq(w, sub(kk, 1)))
                b.term(w)
                eb = dict(e1)
                eb[d] = vsub(cs['val'], k, w)
                nv.append((b, eb, inf + [(d, w)]))
            variants = nv
        return variants

    st = st0.copy()
    st.add(keep(k >= 0))
    env = header_env(st, k, None)
    range_facts(st, env)
    q = Quant(0, k, lambda j: subst(phi, k, j), 'iterations of %s:%s' % (f.name, header))
    results = []
    for (s, extra, inf) in mk_header(st, k):
        e = dict(env)
        e.update(extra)
        for d in names:
            if modes[d] == 'undef':
                e[d] = UNDEF
            elif d in folds:
                e[d] = folds[d].value(ex, s, add(folds[d].base, k))
            elif d in havocs:
                e[d] = fresh_like(ex, s, 'p' + d.strip('%'), entry[d], modes[d])
        for r, m in maps.items():
            s.mem[r] = map_node(ex, s.mem[r], m, k, k)
        for r, m in fixed.items():
            if r in mfolds:
                mfolds[r].write(ex, s, r, add(mfolds[r].base, k))
            elif m[0] == 'fixed':
                b, _f = ex.byte_base('hv_' + ex.regions[r].name)
                s.mem[r] = Range(s.mem[r], m[1], m[2], b.fn)
            else:
                s.mem[r], _f = ex.byte_base('hv_' + ex.regions[r].name)
        for g in gmods:
            s.g[g] = add(st0.g[g], mul(k, gaff[g])) if g in gaff else ex.newint(s, 'g_' + str(g), 0, None)
        for hk in ex.loop_facts:
            hk(ex, fr, header, e, s, k, entry)
        s.quant(q)
        q.inst(s, sub(k, 1))
        inst_terms(s, phi, k, kid, k)
        s.term(k)
        for x in backwards(phi, k, kid):
            s.term(sub(x, k))
        if not ex.feasible(s, z3.BoolVal(True)):
            continue
        hnodes = dict(s.mem)
        frees = s.freed
        dist = {}
        outs = ex.run(fr, header, None, dict(e), s.copy(), loop)
        for o in outs:
            if o[0] == 'exit':
                results.append(o)
                continue
            if ex.quiet:
                continue
            verify_back(ex, fr, header, o, s, e, hnodes, frees, k, kid, dict(
                names=names, modes=modes, affine=affine, entry=entry, sets=sets, folds=folds, havocs=havocs, maps=maps,
                fixed=fixed, mfolds=mfolds, gaff=gaff, gmods=gmods, st0=st0, phi=phi, phi_ob=phi_ob, inf=inf, mods=mods))
    for d in list(sets):
        pass
    return results


def backwards(c, k, kid):
    """positions x for which the iteration reads an array at x - k"""
    from .engine import reads
    return [b for a, b in reads(c, k) if a == -1 and kid not in syms(b)]


def inst_terms(s, c, k, kid, kk, lo=None):
    """instantiate iteration facts at the roots of linear (dis)equalities"""
    for t in roots(c, k, kid):
        for q in s.quants[-3:]:
            q.inst(s, t)


def atoms(c):
    if isinstance(c, bool):
        return []
    out, stack = [], [c]
    while stack:
        x = stack.pop()
        if z3.is_and(x) or z3.is_or(x) or z3.is_not(x):
            stack.extend(x.children())
        else:
            out.append(x)
    return out


def roots(c, k, kid):
    out = []
    for x in atoms(c):
        if z3.is_eq(x) and x.arg(0).sort() == z3.IntSort() and kid in syms(x):
            d = sub(x.arg(0), x.arg(1))
            c0, m = lin(d)
            ck = m.get(k.get_id(), (0, None))[0]
            if ck == 0:
                continue
            rest = {i: v for i, v in m.items() if i != k.get_id()}
            if any(kid in syms(v[1]) for v in rest.values()):
                continue
            sg = -1 if ck > 0 else 1
            num = build(sg * c0, {i: (sg * q, a) for i, (q, a) in rest.items()})
            t = idiv(num, abs(ck))
            if not any(same_int(t, u) for u in out):
                out.append(t)
    return out


def same_int(a, b):
    d = sub(a, b)
    return isc(d) and d == 0


def khi(phi, k, kid, ex=None, st=None):
    """numeric upper bound for k from conjuncts holding at k-1"""
    best = None
    if isinstance(phi, bool):
        return None
    alts = phi.children() if z3.is_or(phi) else [phi]
    for alt in alts:
        b = None
        for c in (alt.children() if z3.is_and(alt) else [alt]):
            d = None
            neg = False
            if z3.is_not(c):
                c, neg = c.arg(0), True
            if z3.is_le(c) or z3.is_ge(c) or z3.is_lt(c) or z3.is_gt(c):
                x, y = c.arg(0), c.arg(1)
                if x.sort() != z3.IntSort():
                    continue
                if z3.is_ge(c) or z3.is_gt(c):
                    x, y = y, x
                strict = z3.is_lt(c) or z3.is_gt(c)
                d = sub(y, x)            # x <= y  -> d >= 0
                if strict:
                    d = sub(d, 1)
                if neg:
                    d = sub(sub(x, y), 0 if strict else 1)
            if neg and z3.is_eq(c) and c.arg(0).sort() == z3.IntSort() and ex is not None:
                # a distance counted down by one each time from a non-negative start and never zero so far
                d = sub(c.arg(0), c.arg(1))
                if isc(d):
                    continue
                c0, m = lin(d)
                ck = m.get(k.get_id(), (0, None))[0]
                if ck == 1:
                    d = sub(0, d)
                elif ck != -1:
                    continue
                c0, m = lin(d)
                rest = build(c0, {i: v for i, v in m.items() if i != k.get_id()})
                if ex.decide(st, le(0, rest)) is not True:
                    continue
            if d is None or isc(d):
                continue
            c0, m = lin(d)
            ck = m.get(k.get_id(), (0, None))[0]
            if ck >= 0:
                continue
            rest = build(c0, {i: v for i, v in m.items() if i != k.get_id()})
            _, h = rng(rest)
            if h is None:
                continue
            v = h // -ck + 1
            b = v if b is None else min(b, v)
        if b is None:
            return None
        best = b if best is None else max(best, b)
    return max(best, 0) if best is not None else None


def ends(ex, st, phi, k, kid):
    """does every way around the loop require k <= a bound fixed at the entry?  (proved for all iterations as 'the back-edge
    condition'; a condition that the counter differs from a value counts when the counter starts on the near side of it)"""
    if isinstance(phi, bool):
        return phi is False

    def bounded(c):
        if z3.is_or(c):
            return all(bounded(x) for x in c.children())
        if z3.is_and(c):
            return any(bounded(x) for x in c.children())
        neg = z3.is_not(c)
        if neg:
            c = c.arg(0)
            if z3.is_or(c):
                return any(bounded(z3.Not(x)) for x in c.children())
            if z3.is_and(c):
                return all(bounded(z3.Not(x)) for x in c.children())
        if c.num_args() != 2 or c.arg(0).sort() != z3.IntSort():
            return False
        x, y = c.arg(0), c.arg(1)
        if z3.is_ge(c) or z3.is_gt(c):
            x, y = y, x
        elif z3.is_eq(c):
            d = sub(x, y)
            m = lin(d)[1] if not isc(d) else {}
            ck = m.get(k.get_id(), (0, None))[0]
            if not ck or any(kid in syms(v[1]) for i, v in m.items() if i != k.get_id()):
                return False
            if not neg:
                return True                  # k is a fixed value
            c0 = lin(d)[0]
            rest = build(c0, {i: v for i, v in m.items() if i != k.get_id()})
            return ex.decide(st, And(le(0, rest) if ck < 0 else le(rest, 0), eq(imod(rest, abs(ck)), 0))) is True
        elif not (z3.is_le(c) or z3.is_lt(c)):
            return False
        d = sub(x, y) if neg else sub(y, x)          # d >= 0 or > 0
        if isc(d):
            return False
        m = lin(d)[1]
        ck = m.get(k.get_id(), (0, None))[0]
        return ck < 0 and not any(kid in syms(v[1]) for i, v in m.items() if i != k.get_id())
    return bounded(phi)


def bounded_trip(ex, st0, phi, k, kid):
    for B in (4, 11, 16):
        c = subst(phi, k, B)
        if c is False:
            return True
        if c is True:
            continue
        if not ex.feasible(st0, c):
            return True
    return False


def classify_set(d, cur, nexts, conds, isclosed):
    setc, noset, val, vals = [], [], None, []
    for nx, c in zip(nexts, conds):
        v = nx[d]
        if same(v, cur[d]):
            noset.append(c)
            continue
        if isinstance(v, Ptr) and v.r == '?' and isinstance(cur[d], Ptr) and cur[d].r == '?':
            noset.append(c)
            continue
        if isinstance(v, IV) and isclosed(v.e) or isinstance(v, Ptr) and v.bvi is None and v.r != '?' and isclosed(v.off):
            setc.append(c)
            vals.append((c, v))
            continue
        return None
    if not setc:
        return None
    val = vals[0][1]
    for c, v in vals[1:]:
        if same(v, val):
            continue
        if isinstance(v, IV) and isinstance(val, IV) and v.w == val.w:
            if v.k in 'cus' and val.k in 'cus':
                val = U(v.w, If(c, as_u(v), as_u(val))) if 's' not in (v.k, val.k) else S(v.w, If(c, as_s(v), as_s(val)))
            else:
                val = BV(v.w, keep(z3.If(zb(c), as_bv(v), as_bv(val))))
        else:
            return None
    return {'set': Or(*setc), 'noset': Or(*noset), 'val': val}


def classify_flag(d, cur, e0, nexts, conds, isclosed):
    """a value that starts as the constant a and becomes (and stays) b once a condition on the iteration holds, computed without
    branching: flag |= c, flag &= c, ...  Only a candidate: verify_back proves it"""
    if not (isinstance(e0, IV) and isc(e0.e) and isinstance(cur[d], IV) and not isc(cur[d].e)):
        return None
    w, a = e0.w, e0.e
    x = cur[d].e

    def at(v, c):
        if same(v, cur[d]):
            return c
        e = v.e
        if isc(e) or isinstance(e, bool):
            return e if not isinstance(e, bool) else int(e)
        y = z3.BoolVal(bool(c)) if z3.is_bool(x) else z3.IntVal(c) if x.sort() == z3.IntSort() else z3.BitVecVal(c, x.sort())
        r = keep(z3.simplify(z3.substitute(e, (x, y))))
        if z3.is_bv_value(r) or z3.is_int_value(r):
            return r.as_long()
        if z3.is_true(r) or z3.is_false(r):
            return int(z3.is_true(r))
        return r if isclosed(r) else None

    def leaves(r):
        """the constants a choice can give, None: not only constants"""
        if isc(r):
            return {r % (1 << w)}
        if z3.is_bool(r):
            return {0, 1}
        if z3.is_app_of(r, z3.Z3_OP_ITE):
            p, q = leaves(r.arg(1)), leaves(r.arg(2))
            return None if p is None or q is None else p | q
        if z3.is_bv_value(r) or z3.is_int_value(r):
            return {r.as_long() % (1 << w)}
        return None
    firsts = []
    for nx in nexts:
        v = nx[d]
        if not isinstance(v, IV) or v.w != w:
            return None
        r = at(v, a)
        if r is None:
            return None
        firsts.append(r)
    cand = set()
    for r in firsts:
        v = leaves(r)
        if v is None:
            return None
        cand |= v
    cand.discard(a % (1 << w))
    if len(cand) != 1:
        return None
    m = cand.pop()

    def equals(r, c):
        if isc(r):
            return r % (1 << w) == c % (1 << w)
        if z3.is_bool(r):
            return r if c else Not(r)
        return keep(z3.simplify(r == (z3.IntVal(c) if r.sort() == z3.IntSort() else z3.BitVecVal(c, r.sort()))))
    setc, noset = [], []
    for nx, c, r in zip(nexts, conds, firsts):
        q = at(nx[d], m)
        if q is None or leaves(q) != {m}:
            return None
        setc.append(And(c, equals(r, m)))
        noset.append(And(c, equals(r, a)))
    setc, noset = Or(*setc), Or(*noset)
    if setc is False:
        return None
    return {'set': setc, 'noset': noset, 'val': C(w, m), 'flag': True}


def classify_mem(ex, r, ws, conds, backs, k, kid, isclosed, drop):
    """('map', lo, stride, cells) | ('fixed', lo, hi) | ('all',)"""
    spans = []
    for w in ws:
        for n in w:
            off, ln = wspan(n)
            spans.append((off, ln))
    if ('mem', r) in drop:
        return ('all',)
    strides = set()
    parts = []
    for off, ln in spans:
        if not isc(ln):
            return ('all',)
        if not isclosed(off):
            return ('all',)
        c0, m = lin(off)
        ck = m.get(k.get_id(), (0, None))[0]
        if any(kid in syms(a) for i, (q, a) in m.items() if i != k.get_id()):
            return ('all',)
        strides.add(ck)
        parts.append((sub(off, mul(k, ck)), ln))
    if len(strides) != 1:
        return ('all',)
    s = strides.pop()
    base = parts[0][0]
    rel = []
    for b, ln in parts:
        d = sub(b, base)
        if not isc(d):
            return ('all',)
        rel.append((d, ln))
    lo = min(d for d, _ in rel)
    hi = max(d + ln for d, ln in rel)
    base = add(base, lo)
    span = hi - lo
    if s == 0:
        return ('fixed', base, add(base, span))
    if s < 0 or span > s:
        return ('all',)
    # cell values per byte
    cells = []
    for d in range(span):
        v = None
        covered = []
        for w, c, o in zip(ws, conds, backs):
            x = None
            off = add(base, add(mul(k, s), d))
            for n in w:
                no, nl = wspan(n)
                dd = sub(off, no)
                if isc(dd) and 0 <= dd < nl:
                    if isinstance(n, Store):
                        x = ex.byte_of(n.val, dd) if isinstance(n.val, IV) else None
                        if x is None:
                            return ('all',)
                    else:
                        x = n.fn(o[3], off)
                    break
            covered.append((c, x))
        if any(x is None for _, x in covered):
            if all(x is None for _, x in covered):
                cells.append(None)      # a gap
                continue
            return ('fixedmap', base, s) if False else ('all',)
        for c, x in covered:
            if not isclosed(x.e):
                v = 'havoc'
                break
            if v is None:
                v = x
            elif not same(v, x):
                v = ex.ite8(c, x, v)
        cells.append(v)
    return ('map', base, s, cells)


def map_node(ex, prev, m, k, kk):
    """memory at the header of iteration kk: the earlier iterations' windows over prev"""
    _, lo, s, cells = m
    hvs = {}
    for d, c in enumerate(cells):
        if c == 'havoc':
            hvs[d], _f = ex.byte_base('hvmap')

    def fn(st, off, lo=lo, s=s, cells=cells, prev=prev):
        rel = sub(off, lo)
        j, d = idiv(rel, s), imod(rel, s)
        out = None
        for i in range(s):
            if isc(d) and d != i:
                continue
            c = cells[i] if i < len(cells) else None
            if c is None:
                v = ex.read8(st, prev, off)
            elif c == 'havoc':
                v = hvs[i].fn(st, off)
            else:
                v = vsub(c, k, j)
            if isc(d):
                out = v
                break
            out = v if out is None else ex.ite8(eq(d, i), v, out)
        return out
    return Range(prev, lo, add(lo, mul(kk, s)), fn)


# ---------------------------------------------------------------- folds
def match_fold(ex, st0, v, d, drop):
    if not isinstance(v, IV):
        return None
    for n, fd in enumerate(ex.folds):
        if fd.kind != 'scalar' or fd.w != v.w or ('fold', d, fd.name) in drop:
            continue
        for b in fd.bases(ex, st0):
            if ('fold', d, fd.name, str(b)) in drop:
                continue
            s = st0.copy()
            x = fd.value(ex, s, b)
            fd.unfold(ex, s, sub(b, 1))
            g = as_bv(v) == as_bv(x) if x.k == 'b' else eq(as_u(v), as_u(x))
            if isinstance(g, bool):
                ok = g
            else:
                ok = ex.check(s, Not(g), 3000)[0] == z3.unsat
            if ok:
                return fd.at(b)
    return None


def match_mem_fold(ex, st0, r, m, drop):
    if m[0] != 'fixed':
        return None
    for fd in ex.folds:
        if fd.kind != 'mem' or ('mfold', r, fd.name) in drop:
            continue
        if not isc(m[1]) or not isc(m[2]):
            continue
        i = fd.instance(ex, st0.copy(), r, m[1], m[2])
        if i is not None:
            return i
    return None


# ---------------------------------------------------------------- verification of one iteration
def verify_back(ex, fr, header, o, hs, he, hnodes, frees, k, kid, I):
    _, prev, env, s = o
    f = fr.f
    nx = ex.phis(fr, header, prev, env, s)
    tag = '%s loop %s: ' % (f.name, header)
    k1 = add(k, 1)

    def ob(g, what, drop):
        if g is True:
            ex.obs.append(_ok(ex, tag + what))
            return
        n = len(ex.obs)
        if not ex.oblige(s, g, tag + what):
            raise Fail(what, drop)

    ob(I['phi_ob'], 'the back-edge condition', ('phi',))
    for d in I['names']:
        if I['modes'][d] == 'undef':
            continue
        v = nx[d]
        if d in I['affine']:
            c = I['affine'][d]
            e0 = I['entry'][d]
            if c == 0 and same(v, he[d]):
                continue
            if isinstance(e0, Ptr):
                if not (isinstance(v, Ptr) and v.r == e0.r):
                    raise Fail('pointer ' + d, ('affine', d))
                ob(eq(v.off, add(e0.off, mul(k1, c))), 'affine variable ' + d, ('affine', d))
            elif I['modes'][d] == 'bv':
                ob(keep(as_bv(v) == as_bv(e0)), 'constant variable ' + d, ('affine', d))
            elif I['modes'][d] == 'int' and e0.w < 64:
                ob(eq(as_s(v), add(as_s(e0), mul(k1, c))), 'affine variable ' + d, ('affine', d))
            else:
                ob(eq(as_u(v), add(as_u(e0), mul(k1, c))), 'affine variable ' + d, ('affine', d))
        elif d in I['sets']:
            cs = I['sets'][d]
            w = cs['val']
            if isinstance(v, Ptr) and isinstance(w, Ptr):
                g = eq(v.off, w.off) if v.r == w.r else False
            elif isinstance(v, IV) and isinstance(w, IV):
                g = eq(as_u(v), as_u(w)) if v.k != 'b' and w.k != 'b' else keep(as_bv(v) == as_bv(w))
            else:
                raise Fail('set variable ' + d, ('set', d))
            g = And(cs['set'], g)
            if same(v, he[d]):
                ob(Or(cs['noset'], g), 'unchanged variable ' + d, ('set', d))
            elif cs.get('flag'):
                x = he[d]
                h = eq(as_u(v), as_u(x)) if v.k != 'b' and x.k != 'b' else keep(as_bv(v) == as_bv(x))
                ob(Or(And(cs['noset'], h), g), 'flag ' + d, ('set', d))
            else:
                ob(g, 'set variable ' + d, ('set', d))
        elif d in I['folds']:
            fd = I['folds'][d]
            x = fd.value(ex, s, add(fd.base, k1))
            fd.unfold(ex, s, add(fd.base, k))
            g = keep(as_bv(v) == as_bv(x)) if x.k == 'b' else eq(as_u(v), as_u(x))
            ob(g, 'fold %s of %s' % (fd.name, d), ('fold', d, fd.name))
        elif I['modes'][d] == 'ptr':
            if not (isinstance(v, Ptr) and v.r == I['entry'][d].r):
                raise Fail('pointer ' + d, None)
    for r, n in hnodes.items():
        if s.mem.get(r) is n:
            if r in I['maps']:
                raise Fail('map region not written', ('mem', r))
            continue
        if r in I['maps']:
            _, lo, st_, cells = I['maps'][r]
            ws = chain(s.mem[r], n)
            if ws is None:
                raise Fail('memory replaced', None)
            wlo = add(lo, mul(k, st_))
            for x in ws:
                off, ln = wspan(x)
                ob(And(le(wlo, off), le(add(off, ln), add(wlo, len(cells)))), 'write window of ' + ex.regions[r].name, ('mem', r))
            for i, c in enumerate(cells):
                if c is None or c == 'havoc':
                    continue
                got = ex.read8(s, s.mem[r], add(wlo, i))
                g = eq8(got, c)
                ob(g, 'bytes written to ' + ex.regions[r].name, ('mem', r))
        elif r in I['fixed']:
            m = I['fixed'][r]
            if m[0] == 'fixed':
                ws = chain(s.mem[r], n)
                if ws is None:
                    raise Fail('memory replaced', None)
                for x in ws:
                    off, ln = wspan(x)
                    ob(And(le(m[1], off), le(add(off, ln), m[2])), 'write range of ' + ex.regions[r].name, ('mem', r))
            if r in I['mfolds']:
                fd = I['mfolds'][r]
                fd.unfold(ex, s, add(fd.base, k))
                g = fd.equals(ex, s, r, add(fd.base, k1))
                ob(g, 'fold %s of %s' % (fd.name, ex.regions[r].name), ('mfold', r, fd.name))
        else:
            raise Fail('memory %s changed in the loop' % ex.regions[r].name, None)
    if s.freed != frees:
        raise Fail('memory freed in the loop', None)
    for g, v in s.g.items():
        if g == 'named':
            continue
        if g in I['gmods']:
            if g in I['gaff']:
                ob(eq(v, add(I['st0'].g[g], mul(k1, I['gaff'][g]))), 'ghost ' + str(g), None)
        elif g not in hs.g or not (v is hs.g[g] or (isc(v) and v == hs.g[g])):
            raise Fail('ghost %s changed' % g, None)
    for hk in ex.loop_checks:
        hk(ex, fr, header, nx, s, k1, ob)


def eq8(a, b):
    if a.k in 'us' or b.k in 'us':
        return eq(as_u(a), as_u(b))
    if a.k == 'c' and b.k == 'c':
        return a.e == b.e
    x, y = as_bv(a), as_bv(b)
    if x.eq(y):
        return True
    return keep(x == y)


def _ok(ex, name):
    from .engine import Ob
    return Ob(ex.name, name, True, 'syntactic', 0)
