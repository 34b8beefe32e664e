"""worker.py SO PROP SEED SECONDS STATE [HINTS]: runs cases until the time is over; STATE always holds the current case."""
import json
import os
import random
import signal
import sys
import time

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from finder import cases, lib     # noqa


MIX = ('key_ids', 'exkey_codec', 'key_derive', 'exkey_derive', 'expub_derive', 'exkey_get_pub', 'pubkey_derive', 'key_to_string', 'pubkey_codec', 'sign', 'exkey_init', 'key_encode')


def main():
    so, prop, seed, secs, state = sys.argv[1:6]
    hints = json.load(open(sys.argv[6])) if len(sys.argv) > 6 else []
    L = lib.Lib(so)
    L.call('fingera_btc_key_init', res='void')
    g = random.Random('%s-%s' % (prop, seed))
    fd = os.open(state, os.O_RDWR | os.O_CREAT, 0o600)
    end = time.time() + float(secs)
    n, seen, samples = 0, set(), []
    gens = cases.GENS.get(prop, [])
    only = os.environ.get('VP_HUGE')
    queue = list(hints)
    if only:
        queue += cases.HUGE.get(prop, [])

    def run(c, heavy):
        t = json.dumps(c).encode()
        os.pwrite(fd, len(t).to_bytes(8, 'little') + t, 0)
        signal.alarm(200 if heavy else 40)      # a call that does not return ends this process
        bad = None
        L.var('vp_dirty_frees').value = 0
        live = L.var('vp_live').value
        try:
            cases.OPS[c['op']](L, c)
        except cases.Bad as e:
            # C25 and C28 are about memory only
            bad = str(e) if prop not in ('C25', 'C28') or prop == 'C28' and e.small else None
        except Exception:
            if c not in hints:       # a counterexample may not describe a whole call
                raise
        ch = L.done()
        if bad is None and ch and prop != 'C25':
            bad = 'an input buffer was changed: %s -> %s' % (ch[0][0][:200], ch[0][1][:200])
        if bad is None and prop in ('C25',) and L.var('vp_dirty_frees').value:
            bad = 'a heap block was freed with data left in it'
        if bad is None and L.var('vp_live').value != live:
            bad = 'a heap block was not freed'
        return bad
    last, before = {}, []

    def mixed(c):
        """sometimes the previous call again with one argument changed: a result must not depend on earlier calls"""
        b = last.get(c['op'])
        if b is not None and c['op'] in MIX and g.random() < .3:
            ks = [k for k in c if k not in ('op', 'priv') and k in b and type(c[k]) is type(b[k]) and c[k] != b[k] and (not isinstance(c[k], str) or len(c[k]) == len(b[k]))]
            if ks and b.get('priv') == c.get('priv'):
                c = dict(b, **{k: c[k] for k in g.sample(ks, 1)})
        last[c['op']] = c
        return c
    out = {}
    while time.time() < end or queue:
        heavy = bool(queue)
        c = queue.pop(0) if queue else mixed(g.choice(gens)(g)) if gens else None
        if c is None:
            break
        bad = run(c, heavy)
        signal.alarm(0)
        n += 1
        if not bad:
            before = (before + [c])[-4:]
        if len(seen) < 200000:
            seen.add(hash(json.dumps(c)))
        if len(samples) < 3:
            samples.append(c)
        if bad:
            out = dict(case=c, what=bad, before=before)
            break
    out.update(n=n, distinct=len(seen), samples=samples)
    print(json.dumps(out))


main()
