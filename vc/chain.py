"""Base conversion by repeated multiply-and-add over a digit buffer: loop hooks.

Inner loop (one pass, 'carry chain'): the k-th iteration replaces digit d_k of a base-B number by n_k and carry c_k by c_(k+1) with
    B * c_(k+1) + n_k = c_k + M * d_k,   0 <= n_k < B,   0 <= c_k < M                                     (proved on the code)
from which, by induction on k (ring identity: lemma 'carry chain'),
    sum_(j<k) B^j n_j + B^k c_k = c_0 + M * sum_(j<k) B^j d_j.
Outer loop: before pass t the buffer holds the number N(t) of the first t source digits, N(t+1) = M N(t) + digit(t), with all
digits from position L on equal to zero.  The pass runs over at least L digits (proved), so the result is M N(t) + c_0; a carry left
at the end of the buffer would mean B^size <= N(t+1) < M^(t+1), which the buffer size excludes (lemma 'buffer size').
The ghost st.g['num'] = (region, E, L, V, T, node): digit j is stored at offset E - j; node holds the number V after T passes."""
from .contract import *
from . import hooks
from .arith import S

PB = z3.Function('power_of_base', z3.IntSort(), z3.IntSort(), z3.IntSort())      # (base, exponent)


def min_p(M, B, q):
    """the least p with M^q <= B^p"""
    p = 1
    x = M ** q
    while B ** p < x:
        p += 1
    return p


def size_facts(st, M, B, t, s):
    """instances of the lemma 'buffer size': q s >= p t  =>  M^t <= B^s"""
    for q in (100, 1000, 10000):
        p = RATIO[M, B, q]
        st.add(Implies(And(le(0, t), le(mul(t, p), mul(s, q))), keep(PB(M, ival(t)) <= PB(B, ival(s)))))


RATIO = {(58, 256, 100): 74, (58, 256, 1000): 733, (58, 256, 10000): 7323, (256, 58, 100): 137, (256, 58, 1000): 1366, (256, 58, 10000): 13657}


class Chain:
    """M: base of the source digits, B: base of the buffer; a: index of the first source digit; n: source size; digit(st, i): value of
    source element i; N: number of the first t digits (uninterpreted, unfolded where needed); hist(st, i): what every consumed
    element satisfies"""
    def __init__(self, M, B, a, n, digit, hist=None):
        self.M, self.B, self.a, self.n, self.digit, self.hist = M, B, a, n, digit, hist
        self.N = z3.Function('number_of_first', z3.IntSort(), z3.IntSort())

    def facts(self, st, t):
        N, M = self.N, self.M
        st.add(keep(N(z3.IntVal(0)) == 0))
        st.add(keep(PB(M, z3.IntVal(0)) == 1))
        st.add(keep(z3.And(N(ival(t)) >= 0, PB(M, ival(t)) >= 1)))

    def step(self, st, t):
        N, M = self.N, self.M
        d = self.digit(st, add(self.a, t))
        st.add(keep(N(ival(add(t, 1))) == M * N(ival(t)) + ival(d)))
        st.add(keep(PB(M, ival(add(t, 1))) == M * PB(M, ival(t))))


def stores(a, b):
    """the stores made on top of node a in node b, or None"""
    out = []
    while b is not a:
        if not isinstance(b, Store):
            return None
        out.append(b)
        b = b.prev
    return out


def zero_buffer(ex, st, rid, E, what):
    o = ex.newint(st, 'o', 0, None)
    s = st.copy()
    s.add(le(o, E))
    s.term(o)
    ex.oblige(s, eq(as_u(ex.read8(s, s.mem[rid], o)), 0), what)


def inner(X):
    def hook(ex, fr, header, env0, st):
        outs = hooks.iteration(ex, fr, header, env0, st)
        backs = [o for o in outs if o[0] == 'back']
        if not backs:
            return None
        names = hooks.phi_names(fr, header)
        strides, carry, reg, store = {}, None, None, None
        for o in backs:
            nx = ex.phis(fr, header, o[1], o[2], o[3])
            for d in names:
                if not isinstance(nx[d], (IV, Ptr)) or isinstance(nx[d], Ptr) != isinstance(env0[d], Ptr):
                    return None
                if isinstance(nx[d], Ptr):
                    x = hooks.diff(env0[d], nx[d])
                else:
                    x = sub(as_s(nx[d]), as_s(env0[d]))
                if x is not None and isc(x) and abs(x) <= 1 and d != carry:
                    if strides.setdefault(d, x) != x:
                        return None
                elif carry in (None, d) and isinstance(nx[d], IV) and d not in strides:
                    carry = d
                else:
                    return None
            ch = hooks.changed(ex, st, o[3])
            if len(ch) != 1 or reg not in (None, ch[0]):
                return None
            reg = ch[0]
            w = stores(st.mem[reg], o[3].mem[reg])
            if not w or len(w) != 1 or w[0].n != 1:
                return None
            store = w[0]
        if carry is None:
            return None
        E, B, M = store.off, X.B, X.M
        num = st.g.get('num')
        tag = '%s loop %s: ' % (fr.f.name, header)
        T = 0
        if num is not None:
            if num[0] != reg or num[5] is not st.mem[reg]:
                return None
            ex.oblige(st, eq(num[1], E), tag + 'the pass starts at the lowest digit')
            L, V, T = num[2], num[3], num[4]
        else:
            zero_buffer(ex, st, reg, E, tag + 'the first pass starts with zero')
            L, V = 0, 0
        c0 = as_s(env0[carry])
        ex.oblige(st, And(le(0, c0), lt(c0, M)), tag + 'the first carry is a digit')
        k = ex.newint(st, 'k', 0, 1 << 40)
        hs, he = st.copy(), dict(env0)
        hs.add(le(k, add(E, 1)))
        for d, c in strides.items():
            if c:
                v = env0[d]
                he[d] = Ptr(v.r, add(v.off, mul(k, c))) if isinstance(v, Ptr) else S(v.w, add(as_s(v), mul(k, c)))
        ck = ex.newint(hs, 'carry', 0, M - 1)
        he[carry] = S(env0[carry].w, ck)
        node0 = st.mem[reg]
        f = ex.ffun('digits', z3.IntSort(), z3.IntSort())

        def fn(s, m):
            e = keep(f(ival(m)))
            bound(e, 0, B - 1)
            s.add(keep(z3.And(e >= 0, e < B)))
            return IV(8, 'u', e)
        hs.mem[reg] = Range(node0, sub(add(E, 1), k), add(E, 1), fn)
        hs.g['num'] = None
        # entry: k = 0, carry c0
        res = []
        for o in hooks.iteration(ex, fr, header, he, hs, False):
            s = o[4] if o[0] == 'exit' else o[3]
            if o[0] == 'ret':
                ex.oblige(o[1], False, tag + 'the pass does not return')
                continue
            if o[0] == 'exit':
                if s.mem[reg] is not hs.mem[reg]:
                    raise Unsupported(tag + 'leaves in the middle of a step')
                ex.oblige(s, le(L, k), tag + 'the pass covers all digits of the number')
                V2 = ex.newint(s, 'number', 0, None)
                x = ex.newint(s, 'left', 0, None)
                s.add(eq(add(V2, x), add(c0, mul(V, M))))
                s.add(Implies(eq(ck, 0), eq(x, 0)))
                s.add(Implies(le(1, ck), keep(x >= PB(B, ival(k)))))
                s.add(Implies(eq(k, 0), eq(ck, c0)))
                s.g['num'] = (reg, E, k, V2, add(T, 1), s.mem[reg])
                res.append(o)
                continue
            nx = ex.phis(fr, header, o[1], o[2], s)
            for d, c in strides.items():
                if isinstance(nx[d], Ptr):
                    ex.oblige(s, hooks.same(hooks.diff(he[d], nx[d]), c), tag + 'loop variable ' + d)
                else:
                    ex.oblige(s, eq(as_s(nx[d]), add(as_s(he[d]), c)), tag + 'loop variable ' + d)
            ch = hooks.changed(ex, hs, s)
            w = stores(hs.mem[reg], s.mem[reg]) if ch == [reg] else None
            if not w or len(w) != 1 or w[0].n != 1:
                ex.oblige(s, False, tag + 'a step replaces one digit')
                continue
            at = sub(E, k)
            old = as_u(ex.read8(hs, node0, at))
            s.add(eq(as_u(ex.read8(s, node0, at)), old))
            new = as_u(w[0].val)
            ex.oblige(s, eq(w[0].off, at), tag + 'step k replaces digit k')
            c1 = as_s(nx[carry])
            ex.oblige(s, le(add(k, 1), add(E, 1)), tag + 'the digit lies in the buffer')
            ex.oblige(s, And(le(0, new), lt(new, B)), tag + 'the new digit is in range')
            ex.oblige(s, And(le(0, c1), lt(c1, M)), tag + 'the new carry is in range')
            ex.oblige(s, eq(add(mul(c1, B), new), add(ck, mul(old, M))), tag + 'B carry\' + new digit = carry + M digit')
        ex.summarised.add((fr.f.name, header))
        return res
    return hook


def outer(X):
    def hook(ex, fr, header, env0, st):
        if st.g.get('num') is not None:
            return None
        outs = hooks.iteration(ex, fr, header, env0, st)
        backs = [o for o in outs if o[0] == 'back' and o[3].g.get('num') is not None]
        if not backs or len(backs) != sum(o[0] == 'back' for o in outs):
            return None
        names = hooks.phi_names(fr, header)
        reg, E = backs[0][3].g['num'][:2]
        kinds = {}
        for o in backs:
            s = o[3]
            nx = ex.phis(fr, header, o[1], o[2], s)
            num = s.g['num']
            if num[0] != reg or not hooks.same(num[1], E) or num[4] != 1:
                return None
            if any(r != reg for r in hooks.changed(ex, st, s)):
                return None
            for d in names:
                if not isinstance(nx[d], (IV, Ptr)) or isinstance(nx[d], Ptr) != isinstance(env0[d], Ptr):
                    return None
                x = hooks.diff(env0[d], nx[d]) if isinstance(nx[d], Ptr) else sub(as_s(nx[d]), as_s(env0[d]))
                if x is not None and isc(x):
                    kd = x
                elif isinstance(nx[d], IV) and isc(as_s(env0[d])) and as_s(env0[d]) == 0 and ex.decide(s, eq(as_s(nx[d]), num[2])) is True:
                    kd = 'length'
                else:
                    return None
                if kinds.setdefault(d, kd) != kd:
                    return None
        tag = '%s loop %s: ' % (fr.f.name, header)
        M, B, N = X.M, X.B, X.N
        zero_buffer(ex, st, reg, E, tag + 'the buffer holds zero at the start')
        ex.oblige(st, le(X.a, X.n), tag + 'the source digits start inside the source')
        t = ex.newint(st, 't', 0, 1 << 40)
        hs, he = st.copy(), dict(env0)
        L = ex.newint(hs, 'length', 0, 1 << 40)
        hs.add(le(L, add(E, 1)))
        hs.add(le(add(X.a, t), X.n))
        for d, kd in kinds.items():
            v = env0[d]
            if kd == 'length':
                he[d] = S(v.w, L)
            elif kd:
                he[d] = Ptr(v.r, add(v.off, mul(t, kd))) if isinstance(v, Ptr) else S(v.w, add(as_s(v), mul(t, kd)))
        f = ex.ffun('number', z3.IntSort(), z3.IntSort())

        def fn(s, m):
            e = keep(f(ival(m)))
            bound(e, 0, B - 1)
            s.add(keep(z3.And(e >= 0, e < B)))
            return IV(8, 'u', e)
        hs.mem[reg] = Range(st.mem[reg], 0, add(E, 1), fn)
        X.facts(hs, t)
        hs.add(keep(N(ival(t)) < PB(M, ival(t))))
        size_facts(hs, M, B, add(t, 1), add(E, 1))
        hs.g['num'] = (reg, E, L, N(ival(t)), t, hs.mem[reg])
        if X.hist is not None:
            hs.quant(Quant(0, t, lambda j: X.hist(hs, add(X.a, j)), 'consumed elements'))
        hs.term(t)
        res = []
        for o in hooks.iteration(ex, fr, header, he, with_step(X, hs, t), False):
            if o[0] != 'back':
                res.append(o)
                continue
            s = o[3]
            num = s.g.get('num')
            nx = ex.phis(fr, header, o[1], o[2], s)
            ok = num is not None and num[0] == reg and hooks.same(num[1], E) and num[5] is s.mem[reg] and hooks.same(num[4], add(t, 1))
            ex.oblige(s, ok, tag + 'one pass per source digit')
            if not ok:
                continue
            ex.oblige(s, all(r == reg for r in hooks.changed(ex, hs, s)), tag + 'only the buffer changes')
            for d, kd in kinds.items():
                if kd == 'length':
                    ex.oblige(s, eq(as_s(nx[d]), num[2]), tag + d + ' is the number of digits in use')
                elif isinstance(nx[d], Ptr):
                    ex.oblige(s, hooks.same(hooks.diff(he[d], nx[d]), kd), tag + 'loop variable ' + d)
                else:
                    ex.oblige(s, eq(as_s(nx[d]), add(as_s(he[d]), kd)), tag + 'loop variable ' + d)
            ex.oblige(s, le(add(X.a, add(t, 1)), X.n), tag + 'the source digit lies in the source')
            ex.oblige(s, le(num[2], add(E, 1)), tag + 'the digits in use lie in the buffer')
            ex.oblige(s, eq(num[3], N(ival(add(t, 1)))), tag + 'the buffer holds M N(t) + digit(t)')
            ex.oblige(s, keep(N(ival(add(t, 1))) < PB(M, ival(add(t, 1)))), tag + 'N(t+1) < M^(t+1)')
            if X.hist is not None:
                ex.oblige(s, X.hist(s, add(X.a, t)), tag + 'the source element is a digit')
        ex.summarised.add((fr.f.name, header))
        return res
    return hook


def with_step(X, hs, t):
    """the unfolding N(t+1) = M N(t) + digit(t) (only meaningful while there is a digit t)"""
    s = hs.copy()
    N, M = X.N, X.M
    s2 = s.copy()
    n0 = len(s2.pc)
    d = X.digit(s2, add(X.a, t))
    for q in s2.pc[n0:]:
        s.add(Implies(lt(add(X.a, t), X.n), q))
    s.add(keep(N(ival(add(t, 1))) == M * N(ival(t)) + ival(d)))
    s.add(keep(PB(M, ival(add(t, 1))) == M * PB(M, ival(t))))
    return s
