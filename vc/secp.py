"""Assumed contracts of libsecp256k1 (outside /repo).  Keys, public key objects, signatures and encodings are bit vectors (first
byte most significant); every function of the library is an uninterpreted function with the algebraic facts documented in its
header.  Everything here is trusted and listed in the evidence."""
import z3
from .arith import *
from .engine import Range, Store, Unsupported, Ptr
from .models import model
from .seq import read_bv, write_bv

B = z3.BitVecSort
BOOL = z3.BoolSort()
F = z3.Function
SKOK = F('secp_seckey_valid', B(256), BOOL)
PUB = F('secp_pubkey_of', B(256), B(512))
PKOK = F('secp_pubkey_object', B(512), BOOL)            # an initialised public key object
SER33 = F('secp_serialize33', B(512), B(264))
SER65 = F('secp_serialize65', B(512), B(520))
POK33 = F('secp_parse33_ok', B(264), BOOL)
POK65 = F('secp_parse65_ok', B(520), BOOL)
PARSE33 = F('secp_parse33', B(264), B(512))
PARSE65 = F('secp_parse65', B(520), B(512))
TWKOK = F('secp_tweak_seckey_ok', B(256), B(256), BOOL)
TWK = F('secp_tweak_seckey', B(256), B(256), B(256))
TWPOK = F('secp_tweak_pubkey_ok', B(512), B(256), BOOL)
TWP = F('secp_tweak_pubkey', B(512), B(256), B(512))
SIGN0 = F('secp_sign', B(256), B(256), B(512))                       # RFC 6979 nonce, no extra data
SIGN1 = F('secp_sign_extra', B(256), B(256), B(256), B(512))         # ... with 32 bytes of extra data
COMPACT = F('secp_sig_compact', B(512), B(512))
CPOK = F('secp_sig_parse_compact_ok', B(512), BOOL)
CP = F('secp_sig_parse_compact', B(512), B(512))
DERLEN = F('secp_sig_der_len', B(512), z3.IntSort())
DERC = F('secp_sig_der', B(512), z3.IntSort(), B(8))
NORM = F('secp_sig_normalize', B(512), B(512))
VERIFY = F('secp_verify', B(512), B(256), B(512), BOOL)

def ret_bool(c):
    return Bo(32, c)


def ctx(ex, st, p, what, blind=False):
    live = st.g.get('ctx', ())
    ok = isinstance(p, Ptr) and p.r is not None and any(r == p.r for r, fl in live)
    ex.oblige(st, ok, 'live curve context: ' + what)
    if blind:
        ex.oblige(st, ok and p.r in st.g.get('blinded', ()), 'blinded curve context: ' + what)


def arg(ex, st, p, n, what):
    ex.rw_ok(st, p, n, what, False)
    return keep(read_bv(ex, st, p, n))


def pub_facts(st, P):
    """facts about an initialised object P"""
    st.add(keep(z3.Implies(PKOK(P), z3.And(POK33(SER33(P)), POK65(SER65(P)), PARSE33(SER33(P)) == P, PARSE65(SER65(P)) == P))))
    h = z3.Extract(263, 256, SER33(P))
    st.add(keep(z3.Or(h == 2, h == 3)))
    st.add(keep(z3.Extract(519, 512, SER65(P)) == 4))


def hom(st, k, t):
    """homomorphism for this key and tweak"""
    st.add(keep(z3.Implies(SKOK(k), z3.And(TWKOK(k, t) == TWPOK(PUB(k), t),
                                           z3.Implies(TWKOK(k, t), z3.And(SKOK(TWK(k, t)), PUB(TWK(k, t)) == TWP(PUB(k), t)))))))


def branch(ex, st, c, yes, no):
    out = []
    for cond, f in ((c, yes), (z3.Not(c), no)):
        cond = keep(cond)
        if not ex.feasible(st, cond):
            continue
        s = st.copy()
        s.add(cond)
        out.append((s, f(s)))
    return out


def havoc(ex, st, p, n, what):
    write_bv(ex, st, p, ex.fbv('undefined', 8 * n), what)


@model('secp256k1_context_create')
def m_create(ex, st, v, fr):
    rid = ex.region(st, 'secp_ctx', 0, 'heap', writable=False)
    fl = v[0].e if v[0].k == 'c' else None
    ex.oblige(st, fl is not None and fl & 0xff == 1, 'flags of a curve context')
    st.g['ctx'] = st.g.get('ctx', ()) + ((rid, fl),)
    return [(st, Ptr(rid, 0))]


@model('secp256k1_context_destroy')
def m_destroy(ex, st, v, fr):
    p = v[0]
    if p.r is None:
        return [(st, None)]
    ctx(ex, st, p, 'destroy')
    st.g['ctx'] = tuple(x for x in st.g.get('ctx', ()) if x[0] != p.r)
    st.g['blinded'] = tuple(x for x in st.g.get('blinded', ()) if x != p.r)
    return [(st, None)]


@model('secp256k1_context_randomize')
def m_randomize(ex, st, v, fr):
    ctx(ex, st, v[0], 'randomize')
    ex.oblige(st, ex.may_init, 'module state and global data are not modified: blinding of a shared context')
    s = arg(ex, st, v[1], 32, 'blinding seed')
    st.g['blinded'] = st.g.get('blinded', ()) + (v[0].r,)
    st.g['seed'] = st.g.get('seed', ()) + ((v[0].r, s),)
    return [(st, C(32, 1))]


@model('secp256k1_ec_seckey_verify')
def m_skv(ex, st, v, fr):
    ctx(ex, st, v[0], 'seckey_verify')
    return [(st, ret_bool(keep(SKOK(arg(ex, st, v[1], 32, 'secret key')))))]


@model('secp256k1_ec_pubkey_create')
def m_pkc(ex, st, v, fr):
    ctx(ex, st, v[0], 'pubkey_create', True)
    k = arg(ex, st, v[2], 32, 'secret key')

    def yes(s):
        P = keep(PUB(k))
        s.add(keep(PKOK(P)))
        pub_facts(s, P)
        write_bv(ex, s, v[1], P, 'public key object')
        return C(32, 1)

    def no(s):
        write_bv(ex, s, v[1], z3.BitVecVal(0, 512), 'public key object')
        return C(32, 0)
    return branch(ex, st, SKOK(k), yes, no)


@model('secp256k1_ec_pubkey_serialize')
def m_pks(ex, st, v, fr):
    from . import ir
    ctx(ex, st, v[0], 'pubkey_serialize')
    P = arg(ex, st, v[3], 64, 'public key object')
    if v[4].k != 'c':
        out = []
        ex.oblige(st, Or(eq(as_u(v[4]), 258), eq(as_u(v[4]), 2)), 'flags of pubkey_serialize')
        for fl in (258, 2):
            c = eq(as_u(v[4]), fl)
            if ex.feasible(st, zb(c)):
                s = st.copy()
                s.add(c)
                out += m_pks(ex, s, v[:4] + [C(32, fl)], fr)
        return out
    fl = v[4].e
    ex.oblige(st, fl in (2, 258), 'flags of pubkey_serialize')
    n = 33 if fl == 258 else 65
    have = as_u(ex.load(st, v[2], ir.INT(64), 'outputlen'))
    ex.oblige(st, le(n, have), 'size announced to pubkey_serialize')
    ex.oblige(st, keep(PKOK(P)), 'pubkey_serialize is given a public key object')
    pub_facts(st, P)
    write_bv(ex, st, v[1], keep(SER33(P) if n == 33 else SER65(P)), 'serialised public key')
    ex.store(st, v[2], C(64, n), 8, 'outputlen')
    return [(st, C(32, 1))]


@model('secp256k1_ec_pubkey_parse')
def m_pkp(ex, st, v, fr):
    ctx(ex, st, v[0], 'pubkey_parse')
    n = as_u(v[3])
    if not isc(n):
        out = []
        for m in (33, 65):
            if ex.feasible(st, zb(eq(n, m))):
                s = st.copy()
                s.add(eq(n, m))
                out += m_pkp(ex, s, [v[0], v[1], v[2], C(64, m)], fr)
        s = st.copy()
        s.add(And(Not(eq(n, 33)), Not(eq(n, 65))))
        if ex.feasible(s, z3.BoolVal(True)):
            ex.rw_ok(s, v[2], n, 'encoded public key', False)
            havoc(ex, s, v[1], 64, 'public key object')
            out.append((s, C(32, 0)))
        return out
    b = arg(ex, st, v[2], n, 'encoded public key') if n > 0 else None
    if n not in (33, 65):
        havoc(ex, st, v[1], 64, 'public key object')
        return [(st, C(32, 0))]
    ok, par, ser = (POK33, PARSE33, SER33) if n == 33 else (POK65, PARSE65, SER65)

    def yes(s):
        P = keep(par(b))
        s.add(keep(PKOK(P)))
        pub_facts(s, P)
        if n == 33:
            s.add(keep(ser(P) == b))
        write_bv(ex, s, v[1], P, 'public key object')
        return C(32, 1)

    def no(s):
        write_bv(ex, s, v[1], z3.BitVecVal(0, 512), 'public key object')
        return C(32, 0)
    return branch(ex, st, ok(b), yes, no)


@model('secp256k1_ec_privkey_tweak_add', 'secp256k1_ec_seckey_tweak_add')
def m_twk(ex, st, v, fr):
    ctx(ex, st, v[0], 'seckey_tweak_add')
    k, t = arg(ex, st, v[1], 32, 'secret key'), arg(ex, st, v[2], 32, 'tweak')
    hom(st, k, t)

    def yes(s):
        write_bv(ex, s, v[1], keep(TWK(k, t)), 'tweaked secret key')
        return C(32, 1)

    def no(s):
        havoc(ex, s, v[1], 32, 'tweaked secret key')
        return C(32, 0)
    return branch(ex, st, z3.And(SKOK(k), TWKOK(k, t)), yes, no)


@model('secp256k1_ec_pubkey_tweak_add')
def m_twp(ex, st, v, fr):
    ctx(ex, st, v[0], 'pubkey_tweak_add')
    P, t = arg(ex, st, v[1], 64, 'public key object'), arg(ex, st, v[2], 32, 'tweak')
    ex.oblige(st, keep(PKOK(P)), 'pubkey_tweak_add is given a public key object')

    def yes(s):
        Q = keep(TWP(P, t))
        s.add(keep(PKOK(Q)))
        pub_facts(s, Q)
        write_bv(ex, s, v[1], Q, 'tweaked public key')
        return C(32, 1)

    def no(s):
        havoc(ex, s, v[1], 64, 'tweaked public key')
        return C(32, 0)
    return branch(ex, st, TWPOK(P, t), yes, no)


@model('secp256k1_ecdsa_sign')
def m_sign(ex, st, v, fr):
    ctx(ex, st, v[0], 'ecdsa_sign', True)
    h, k = arg(ex, st, v[2], 32, 'message hash'), arg(ex, st, v[3], 32, 'secret key')
    nf = v[4]
    ex.oblige(st, isinstance(nf, Ptr) and nf.r in (None, 'fn:rfc6979'), 'the nonce function is RFC 6979')
    if v[5].r is None:
        s = keep(SIGN0(k, h))
    else:
        s = keep(SIGN1(k, h, arg(ex, st, v[5], 32, 'extra nonce data')))
    if st.g.get('watch') is not None:
        st.g['watch'](ex, st, k, h, None if v[5].r is None else s.arg(2), s)

    def yes(s2):
        write_bv(ex, s2, v[1], s, 'signature')
        return C(32, 1)

    def no(s2):
        write_bv(ex, s2, v[1], z3.BitVecVal(0, 512), 'signature')
        return C(32, 0)
    return branch(ex, st, SKOK(k), yes, no)


@model('secp256k1_ecdsa_signature_serialize_compact')
def m_compact(ex, st, v, fr):
    ctx(ex, st, v[0], 'signature_serialize_compact')
    s = arg(ex, st, v[2], 64, 'signature')
    write_bv(ex, st, v[1], keep(COMPACT(s)), 'compact signature')
    return [(st, C(32, 1))]


@model('secp256k1_ecdsa_signature_parse_compact')
def m_pcompact(ex, st, v, fr):
    ctx(ex, st, v[0], 'signature_parse_compact')
    b = arg(ex, st, v[2], 64, 'compact signature')
    st.g['compact_in'] = st.g.get('compact_in', ()) + ((st.mem[v[2].r], v[2].off, b, not z3.is_bv_value(z3.simplify(b))),)
    st.add(keep(CPOK(z3.BitVecVal(0, 512))))

    def yes(s):
        write_bv(ex, s, v[1], keep(CP(b)), 'signature')
        return C(32, 1)

    def no(s):
        havoc(ex, s, v[1], 64, 'signature')
        return C(32, 0)
    return branch(ex, st, CPOK(b), yes, no)


@model('secp256k1_ecdsa_signature_serialize_der')
def m_der(ex, st, v, fr):
    from . import ir
    ctx(ex, st, v[0], 'signature_serialize_der')
    s = arg(ex, st, v[3], 64, 'signature')
    n = DERLEN(s)
    keep(n)
    bound(n, 8, 72)
    st.add(keep(z3.And(n >= 8, n <= 72)))
    have = as_u(ex.load(st, v[2], ir.INT(64), 'outputlen'))
    def yes(s2):
        ex.rw_ok(s2, v[1], n, 'DER signature', True)
        o = v[1].off
        s2.mem[v[1].r] = Range(s2.mem[v[1].r], o, add(o, n), lambda s3, m: IV(8, 'b', keep(DERC(s, ival(sub(m, o))))))
        ex.store(s2, v[2], U(64, n), 8, 'outputlen')
        return C(32, 1)

    def no(s2):
        ex.store(s2, v[2], U(64, n), 8, 'outputlen')
        return C(32, 0)
    return branch(ex, st, zb(le(n, have)), yes, no)


@model('secp256k1_ecdsa_signature_normalize')
def m_norm(ex, st, v, fr):
    ctx(ex, st, v[0], 'signature_normalize')
    s = arg(ex, st, v[2], 64, 'signature')
    if v[1].r is not None:
        write_bv(ex, st, v[1], keep(NORM(s)), 'normalised signature')
    return [(st, ret_bool(ex.fbool('was_high')))]


@model('secp256k1_ecdsa_verify')
def m_verify(ex, st, v, fr):
    ctx(ex, st, v[0], 'ecdsa_verify')
    s, h, P = arg(ex, st, v[1], 64, 'signature'), arg(ex, st, v[2], 32, 'message hash'), arg(ex, st, v[3], 64, 'public key object')
    ex.oblige(st, keep(PKOK(P)), 'ecdsa_verify is given a public key object')
    return [(st, ret_bool(keep(VERIFY(s, h, P))))]


def nonce_fn(st, off):
    return Ptr('fn:rfc6979', 0)


from .engine import Ex      # noqa: E402
Ex.ptr_regions.update({'secp256k1_nonce_function_rfc6979': nonce_fn, 'secp256k1_nonce_function_default': nonce_fn})
