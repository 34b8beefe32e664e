"""Loop hooks: inductive invariants for loops whose progress is measured by a ghost quantity of the environment models."""
from .contract import *
from .loops import eq8, do_loop_env


def iteration(ex, fr, header, env, st, quiet=True):
    loop = (header, fr.f.loops[header])
    if not quiet:
        return ex.run(fr, header, None, dict(env), st.copy(), loop)
    ex.quiet += 1
    ex.tent += 1
    n = len(ex.obs)
    try:
        return ex.run(fr, header, None, dict(env), st.copy(), loop)
    finally:
        ex.quiet -= 1
        ex.tent -= 1
        del ex.obs[n:]


def phi_names(fr, header):
    return [i.dst for i in fr.f.blocks[header] if i.op == 'phi']


def changed(ex, a, b):
    """regions of state a whose content differs in state b"""
    return [r for r in a.mem if r in b.mem and b.mem[r] is not a.mem[r]]


def off_of(v):
    return v.off if isinstance(v, Ptr) else as_u(v)


def diff(a, b):
    """b - a, or None"""
    if isinstance(a, Ptr) != isinstance(b, Ptr) or isinstance(a, Ptr) and a.r != b.r:
        return None
    return sub(off_of(b), off_of(a))


def shifted(v, d):
    if isinstance(v, Ptr):
        return Ptr(v.r, add(v.off, d))
    return U(v.w, add(as_u(v), d))


def same(a, b):
    d = sub(a, b)
    return isc(d) and d == 0


def stream_loop(ex, fr, header, env0, st):
    """a loop that consumes the device stream: after p consumed bytes every loop variable has moved by c*p (c in -1, 0, 1) and
    the p bytes read so far are stored in order"""
    if 'rpos' not in st.g and not st.g.get('open'):
        return None
    outs = iteration(ex, fr, header, env0, st)
    backs = [o for o in outs if o[0] == 'back']
    if not backs or any(same(o[3].g.get('rpos', 0), st.g.get('rpos', 0)) for o in backs):
        return None
    names = phi_names(fr, header)
    r0 = st.g.get('rpos', 0)
    coef = {}
    regs = set()
    for _, prev, e, s in backs:
        nx = ex.phis(fr, header, prev, e, s)
        got = sub(s.g['rpos'], r0)
        regs |= set(changed(ex, st, s))
        for d in names:
            if not isinstance(nx[d], (Ptr, IV)) or not isinstance(env0[d], (Ptr, IV)):
                return None
            x = diff(env0[d], nx[d])
            if x is None:
                return None
            for c in (0, 1, -1):
                if ex.decide(s, eq(x, mul(got, c))) is True:
                    if coef.setdefault(d, c) != c:
                        return None
                    break
            else:
                return None
    if len(regs) != 1:
        return None
    reg = regs.pop()
    ptrs = [d for d in names if isinstance(env0[d], Ptr) and env0[d].r == reg]
    # where the stream starts in the region: the destination of the first read
    start = st.g.get('stream_at', {}).get(reg)
    if start is None:
        start = env0[ptrs[0]].off if ptrs else 0
    from .models import urandom
    U8 = urandom()
    k = ex.newint(st, 'consumed', 0, None)
    hs, he = st.copy(), dict(env0)
    for d in names:
        if coef[d]:
            he[d] = shifted(env0[d], mul(k, coef[d]))
            if coef[d] < 0 and not isinstance(env0[d], Ptr):
                hs.add(le(0, as_u(he[d])))
    node0 = st.mem[reg]
    hs.g['rpos'] = add(r0, k)
    content = lambda s, m: IV(8, 'b', keep(U8(ival(add(r0, sub(m, start))))))
    hs.mem[reg] = Range(node0, start, add(start, k), content)
    # entry: k = 0 by construction
    res = []
    for o in iteration(ex, fr, header, he, hs, False):
        if o[0] != 'back':
            res.append(o)
            continue
        _, prev, e, s = o
        nx = ex.phis(fr, header, prev, e, s)
        k1 = sub(s.g['rpos'], r0)
        tag = '%s loop %s: ' % (fr.f.name, header)
        for d in names:
            x = diff(env0[d], nx[d])
            ex.oblige(s, x is not None and eq(x, mul(k1, coef[d])), tag + 'loop variable moves with the bytes read')
        ex.oblige(s, le(k, k1), tag + 'progress is monotone')
        if 'lastread' in s.g:
            ex.oblige(s, Or(lt(k, k1), lt(s.g['lastread'], 0)), tag + 'bytes are taken in every iteration whose read does not fail')
        for r in changed(ex, hs, s):
            if r != reg and ex.regions[r].kind != 'stack':
                ex.oblige(s, False, tag + 'only the destination is written')
        j = ex.newint(s, 'j', 0, None)
        s.add(lt(j, k1))
        if ex.feasible(s, z3.BoolVal(True)):
            ex.oblige(s, eq8(ex.read8(s, s.mem[reg], add(start, j)), content(s, add(start, j))), tag + 'the bytes read so far are stored in order')
    ex.summarised.add((fr.f.name, header))
    return res


def live_at(f, header):
    """SSA values defined before `header` and used from it on; None when the header lies in an outer loop"""
    import re
    if any(header in body and h != header for h, body in f.loops.items()):
        return None
    seen, todo = set(), [header]
    while todo:
        b = todo.pop()
        if b in seen or b not in f.blocks:
            continue
        seen.add(b)
        for i in f.blocks[b]:
            todo += ['%' + x for x in re.findall(r'label %([\w.$-]+)', i.text)]
    used, defs = set(), set()
    for b in seen:
        for i in f.blocks[b]:
            if i.dst:
                defs.add(i.dst)
            t = i.text.split('=', 1)[1] if i.dst else i.text
            if b == header and i.op == 'phi':
                continue
            used |= set(re.findall(r'%[\w.$-]+', t))
    return {u for u in used if u not in defs and u not in f.blocks}


def cut(spec, start):
    """A cut at a loop header: every path reaching it proves that its live integers are ghost values of the specification
    (spec(ex, st) -> [(state, {name: term})] or None) and continues as one path with arbitrary such ghost values.
    start: the state of the precondition; its facts and the ghost facts are all that is kept."""
    memo = {}

    def hook(ex, fr, header, env0, st):
        if ex.depth > 2 or (fr.f.name, header) in memo and memo[fr.f.name, header] is None:
            return None
        live = live_at(fr.f, header)
        if live is None:
            return None
        names = phi_names(fr, header)
        vals = {d: env0[d] for d in names}
        vals.update({d: env0[d] for d in live if d in env0 and d not in names})
        ints = {d: v for d, v in vals.items() if not (isinstance(v, IV) and v.k == 'c' and d not in names)}
        key = (fr.f.name, header)
        res = spec(ex, st)
        if res is None:
            return None
        first = key not in memo
        if not first:
            G, M, old, gl = memo[key]
        else:
            M = {}
        for s, g in res:
            for d, v in ints.items():
                if not isinstance(v, (IV, Ptr)) or isinstance(v, IV) and v.w == 1:
                    continue
                off = off_of(v)
                if d in M:
                    continue
                if not first and d not in M:
                    memo[key] = None
                    return None
                if isinstance(v, Ptr) and (isc(off) or v.r is None):
                    M[d] = ('same', v)
                    continue
                for n, t in g.items():
                    if ex.decide(s, eq(off, t)) is True:
                        M[d] = ('ghost', n)
                        break
                else:
                    if d in names or not isc(off) and not z3.is_const(off):
                        return None
                    M[d] = ('same', v)
        if first:
            G = start.copy()
            G.mem, G.g, G.frames, G.freed = dict(st.mem), dict(st.g), st.frames, st.freed
            gl = spec.ghosts(ex, G)
            G.g['ghosts'] = gl
            memo[key] = (G, M, st, gl)
        # the memory is that of the first path
        o = memo[key][2]
        same_mem = all(st.mem[r] is o.mem[r] for r in set(st.mem) & set(o.mem))
        same_g = all(st.g.get(x) is o.g.get(x) for x in set(st.g) | set(o.g) if x not in ('named', 'inst'))
        if not same_mem or not same_g:
            return None
        for s, g in res:
            spec.check(ex, s, g)
            for d, (k, x) in M.items():
                if k == 'ghost':
                    ex.oblige(s, eq(off_of(vals[d]), g[x]), '%s loop %s: %s is a value of the specification' % (fr.f.name, header, d))
                else:
                    ex.oblige(s, same(off_of(vals[d]), off_of(x)), '%s loop %s: %s is the same on every path' % (fr.f.name, header, d))
        if not first:
            return []
        env = dict(env0)
        for d, (k, x) in M.items():
            if k == 'ghost':
                v = vals[d]
                env[d] = Ptr(v.r, gl[x]) if isinstance(v, Ptr) else U(v.w, gl[x])
        hs = ex.hooks
        ex.hooks = [h for h in hs if h is not hook]
        try:
            return do_loop_env(ex, fr, header, env, G.copy())
        finally:
            ex.hooks = hs
    return hook
