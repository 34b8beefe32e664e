"""C29: the data contract of the network parameter tables: the initial values of the three objects, read through the verifier's
memory from their initialisers, and the frame condition that no function of the library refers to them."""
import os
import re
from .contract import *
from . import ir
from .engine import Frame
from .srcs import REPO

EXT = {'main': (b'\x04\x88\xb2\x1e', b'\x04\x88\xad\xe4'), 'test': (b'\x04\x35\x87\xcf', b'\x04\x35\x83\x94')}
TABLES = {
    'g_mainnet_chain_parameters': (b'\x00', b'\x05', b'\x80') + EXT['main'] + (b'bc',),
    'g_testnet_chain_parameters': (b'\x6f', b'\xc4', b'\xef') + EXT['test'] + (b'tb',),
    'g_regnet_chain_parameters': (b'\x6f', b'\xc4', b'\xef') + EXT['test'] + (b'bcrt',),
}
FIELDS = ('prefix_pubkey_address', 'prefix_script_address', 'prefix_secret_key', 'prefix_ext_public_key', 'prefix_ext_secret_key', 'bech32_hrp')


def order():
    """member names of struct chain_parameters in declaration order"""
    t = open(os.path.join(REPO, 'include/fingera_libc/btc/chain_parameters.h')).read()
    t = re.sub(r'/\*.*?\*/|//[^\n]*', '', t, flags=re.S)
    m = re.search(r'typedef\s+struct[^{]*\{(.*?)\}\s*chain_parameters\s*;', t, re.S)
    out = []
    for d in m.group(1).split(';'):
        if d.strip():
            out += [x.strip().lstrip('*').strip() for x in re.sub(r'^[\w\s]*?[\s*]+(?=\w+\s*(,|$))', '', d.strip()).split(',')]
    return out


@register
class ChainTables(Contract):
    name = 'chain_parameters (data)'

    def data(self, ex, prog):
        names = order()
        for tab, vals in TABLES.items():
            g = '@' + tab
            mod, d = prog.globs[g]
            ty = d['ty']
            st = State()
            fr = Frame(None, mod)
            p = ex.glob(st, fr, g)
            st.mem[p.r] = ex.init_typed(st, fr, st.mem[p.r], 0, ty, d['init'])
            for f, v in zip(FIELDS, vals):
                off = lambda n: ir.field_offset(ty, names.index(n))
                q = ex.load(st, Ptr(p.r, off(f)), ir.PTR)
                n = ex.load(st, Ptr(p.r, off(f + '_size')), ir.INT(32))
                ex.oblige(st, eq(as_u(n), len(v)), '%s: size of %s' % (tab, f))
                ok = isinstance(q, Ptr) and q.r is not None and not ex.regions[q.r].writable
                ex.oblige(st, ok, '%s: %s is constant data' % (tab, f))
                if ok:
                    ex.rw_ok(st, q, len(v), tab + ': ' + f, False)
                    for i, b in enumerate(v):
                        x = ex.read8(st, st.mem[q.r], add(q.off, i))
                        ex.oblige(st, keep(as_bv(x) == b), '%s: byte %d of %s' % (tab, i, f))
            used = [f.name for m in prog.mods for f in m.funcs.values() if any(g in i.text for b in f.blocks.values() for i in b)]
            ex.oblige(st, not used, '%s: no function of the library refers to the object' % tab)
