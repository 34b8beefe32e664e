"""Contracts of random.c and of the key functions that draw random bytes, over the ghost byte stream of the random device."""
from .contract import *
from . import ir, secp, hooks
from .models import urandom
from .seq import read_bv


def stream(ex, st, pos, n):
    U8 = urandom()
    return keep(concat([U8(ival(add(pos, i))) for i in range(n)]))


@register
class OsRand(Contract):
    """returns only with buf[0..n) = the next n bytes of the device"""
    name = 'fingera_os_rand_bytes'

    def setup(self, ex, st):
        c = Ctx()
        c.n = size_param(ex, st, 'buf_size')
        c.out = out_buf(ex, st, 'buf', c.n)
        st.g['rpos'] = c.r0 = ex.newint(st, 'stream', 0, None)
        ex.hooks = [hooks.stream_loop]
        ex.stop_reason = True
        return [Ptr(c.out, 0), U(64, c.n)], c

    def post(self, ex, st, ret, c):
        ex.oblige(st, eq(st.g['rpos'], add(c.r0, c.n)), 'exactly n bytes are taken from the device')
        j = skolem(ex, st, 'j', 0, c.n)
        if j is not None:
            ex.oblige(st, keep(bv8(ex, st, c.out, j) == urandom()(ival(add(c.r0, j)))), 'byte j is the j-th byte of the device')

    def call(self, ex, st, v):
        n = as_u(v[1])
        ex.rw_ok(st, v[0], n, 'buffer of ' + self.name, True)
        r0 = st.g.get('rpos', 0)
        U8 = urandom()
        p = v[0]
        if p.r is not None:
            if isc(n) and n <= 64:
                for i in range(n):
                    st.mem[p.r] = Store(st.mem[p.r], add(p.off, i), 1, IV(8, 'b', keep(U8(ival(add(r0, i))))))
            else:
                st.mem[p.r] = Range(st.mem[p.r], p.off, add(p.off, n), lambda s, m: IV(8, 'b', keep(U8(ival(add(r0, sub(m, p.off)))))))
        st.g['rpos'] = add(r0, n)
        return [(st, None)]


def module_start(ex, st, f):
    """the static data of the module as the program starts"""
    from .engine import Frame
    fr = Frame(f, f.mod)
    for n, g in f.mod.globals.items():
        if g['internal'] and not g['const'] and not g['ext'] and g['init'] is not None:
            p = ex.glob(st, fr, '@' + n if not n.startswith('@') else n)
            R = ex.regions[p.r]
            if R.writable:
                st.mem[p.r] = ex.init_typed(st, fr, st.mem[p.r], 0, g['ty'], g['init'])
                R.entry = st.mem[p.r]


def initialised(ex, st):
    """the module state after fingera_btc_key_init()"""
    f = ex.prog.any_func('fingera_btc_key_init')
    if f is None:
        raise Unsupported('fingera_btc_key_init not found')
    module_start(ex, st, f)
    keepc, ex.contracts = ex.contracts, {n: CONTRACTS[n] for n in ('fingera_os_rand_bytes',)}
    st.g['rpos'] = ex.newint(st, 'stream', 0, None)
    n = len(ex.obs)
    ex.quiet += 1
    ex.tent += 1
    try:
        outs = [o for o in ex.call_function(f, [], st) if ex.feasible(o[0], z3.BoolVal(True))]
    finally:
        ex.quiet -= 1
        ex.tent -= 1
        ex.contracts = keepc
        del ex.obs[n:]
    if not outs:
        raise Unsupported('fingera_btc_key_init does not return')
    s = outs[0][0]
    for x in State.__slots__:
        setattr(st, x, getattr(s, x))
    st.frames = ()
    for rid, R in ex.regions.items():
        if R.kind == 'global' and R.writable and rid in st.mem:
            R.entry = st.mem[rid]


@register
class KeyInit(Contract):
    """two live contexts; the signing one is blinded with 32 fresh random bytes"""
    name = 'fingera_btc_key_init'
    uses = ('fingera_os_rand_bytes',)
    module_state = True

    def setup(self, ex, st):
        c = Ctx()
        f = ex.prog.any_func(self.name)
        module_start(ex, st, f)
        c.r0 = st.g['rpos'] = ex.newint(st, 'stream', 0, None)
        ex.dead_stack = []
        return [], c

    def post(self, ex, st, ret, c):
        live = st.g.get('ctx', ())
        ex.oblige(st, len(live) == 2, 'two curve contexts are created')
        ex.oblige(st, sorted(fl for _, fl in live) == [257, 513], 'one for verification and one for signing')
        sign = [r for r, fl in live if fl == 513]
        seeds = st.g.get('seed', ())
        ex.oblige(st, len(seeds) == 1 and [seeds[0][0]] == sign, 'the signing context is blinded once')
        if seeds:
            ex.oblige(st, keep(seeds[0][1] == stream(ex, st, c.r0, 32)), 'the blinding seed is 32 fresh random bytes')
        ex.oblige(st, eq(st.g['rpos'], add(c.r0, 32)), 'no other random bytes are used')
        # each context is kept in the module
        kept = []
        for rid, n in st.mem.items():
            R = ex.regions[rid]
            if R.kind == 'global' and R.writable:
                while isinstance(n, Store):
                    if isinstance(n.val, Ptr):
                        kept.append(n.val.r)
                        break
                    n = n.prev
        ex.oblige(st, all(r in kept for r, _ in live), 'the module keeps both contexts')
        # the seed does not stay on the stack: every local that held it is wiped
        for rid in sorted(r for r in st.freed if ex.regions[r].kind == 'stack'):
            R = ex.regions[rid]
            if isc(R.size) and R.size >= 32:
                for i in range(R.size):
                    b = ex.read8(st, st.mem[rid], i)
                    ex.oblige(st, b.k == 'c' and b.e == 0xCC or b.k != 'c' and keep(as_bv(b) == 0xCC), 'the blinding seed is wiped', share='wiped')


@register
class KeyUninit(Contract):
    """both contexts destroyed, module state as at program start"""
    name = 'fingera_btc_key_uninit'
    module_state = True

    def setup(self, ex, st):
        c = Ctx()
        f = ex.prog.any_func(self.name)
        module_start(ex, st, f)
        c.start = {r: st.mem[r] for r in st.mem if ex.regions[r].kind == 'global' and ex.regions[r].writable}
        initialised(ex, st)
        return [], c

    def post(self, ex, st, ret, c):
        ex.oblige(st, len(st.g.get('ctx', ())) == 0, 'every context is destroyed')
        for r, n in c.start.items():
            R = ex.regions[r]
            if R.size == 8 and isinstance(n, Store) and isinstance(n.val, Ptr):
                v = ex.load(st, Ptr(r, 0), ir.PTR)
                ex.oblige(st, isinstance(v, Ptr) and v.r is None, 'the module is ready to be initialised again: ' + R.name)
            else:
                for i in range(R.size):
                    a, b = ex.read8(st, st.mem[r], i), ex.read8(st, n, i)
                    ex.oblige(st, a.k == b.k == 'c' and a.e == b.e, 'the module is ready to be initialised again: ' + R.name)


def retry_loop(ex, fr, header, env0, st):
    """draw 32 bytes until they are a key: the header state after k draws"""
    outs = hooks.iteration(ex, fr, header, env0, st)
    backs = [o for o in outs if o[0] == 'back']
    if not backs:
        return None
    r0 = st.g['rpos']
    if any(not hooks.same(sub(o[3].g['rpos'], r0), 32) for o in backs):
        return None
    k = ex.newint(st, 'draws', 0, None)
    hs, he = st.copy(), dict(env0)
    names = hooks.phi_names(fr, header)
    for d in names:
        if isinstance(env0[d], IV):
            he[d] = U(env0[d].w, ex.fint('any', 0, (1 << env0[d].w) - 1))
            hs.add(keep(z3.And(he[d].e >= 0, he[d].e < (1 << env0[d].w))))
        elif any(ex.phis(fr, header, o[1], o[2], o[3])[d] != env0[d] for o in backs):
            return None
    hs.g['rpos'] = add(r0, mul(k, 32))
    bad = lambda i: keep(z3.Not(secp.SKOK(stream(ex, hs, add(r0, mul(i, 32)), 32))))
    hs.quant(Quant(0, k, bad, 'earlier draws are no keys'))
    for o in backs:
        for r in hooks.changed(ex, st, o[3]):
            hs.mem[r], _ = ex.byte_base('drawn')
    hs.g['draws'] = k
    res = []
    for o in hooks.iteration(ex, fr, header, he, hs, False):
        if o[0] != 'back':
            res.append(o)
            continue
        s = o[3]
        tag = '%s loop %s: ' % (fr.f.name, header)
        ex.oblige(s, eq(s.g['rpos'], add(r0, mul(add(k, 1), 32))), tag + 'one draw of 32 bytes per iteration')
        ex.oblige(s, bad(k), tag + 'only strings that are no key are drawn again')
    ex.summarised.add((fr.f.name, header))
    return res


@register
class KeyNew(Contract):
    """key32 = the first 32-byte string of the device that is a valid key"""
    name = 'fingera_btc_key_new'
    uses = ('fingera_os_rand_bytes',)

    def setup(self, ex, st):
        c = Ctx()
        initialised(ex, st)
        c.r0 = st.g['rpos'] = ex.newint(st, 'stream', 0, None)
        c.out = out_buf(ex, st, 'key32', 32)
        ex.hooks = [retry_loop]
        return [Ptr(c.out, 0)], c

    def post(self, ex, st, ret, c):
        K = keep(read_bv(ex, st, Ptr(c.out, 0), 32))
        r1 = st.g['rpos']
        ex.oblige(st, keep(secp.SKOK(K)), 'the key is valid')
        ex.oblige(st, keep(K == stream(ex, st, sub(r1, 32), 32)), 'the key is the last string drawn')
        n = ex.newint(st, 'earlier', 0, None)
        st.add(lt(add(c.r0, mul(add(n, 1), 32)), r1))
        ex.oblige(st, eq(imod(sub(r1, c.r0), 32), 0), 'strings of 32 bytes are drawn')
        st.term(n)
        ex.oblige(st, keep(z3.Not(secp.SKOK(stream(ex, st, add(c.r0, mul(n, 32)), 32)))), 'no earlier string was a key')
