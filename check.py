#!/opt/veriftools/pyvenv/bin/python
"""check.py PROPERTY [--tier quick|thorough]: decides one property of /repo's current working tree.

1. /repo's sources are compiled to LLVM IR (clang) and every function under contract that the property depends on is
   executed symbolically against its contract; every obligation must be discharged (vc/).
2. The lemmas connecting the contracts to the property are proved.
3. The finder (finder/) runs the real code on concrete inputs: a short validation run when everything is proved, a longer
   search - started from the solver's counterexamples - for a failing input when an obligation is not.
Exit 0: every obligation discharged.  Exit 1: a line VIOLATION property=... replay=...  Exit 2: the check itself broke."""
import argparse
import hashlib
import importlib
import json
import multiprocessing as mp
import os
import sys
import threading
import time
import traceback

ROOT = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, ROOT)
sys.setrecursionlimit(20000)
DEADLINE = 640


ONLY = [None]


def tup(o):
    return (o.func, o.name, o.ok, o.backend, o.t, o.model, o.detail)


def relevant(o):
    """C25, C28 and C31 are decided by one kind of obligation; a wrong result alone does not concern them"""
    from vc import props
    return ONLY[0] is None or props.FILTERS[ONLY[0]](o)


def work(P, contract, name, scale, q):
    c = contract.CONTRACTS[name]
    c.ms, c.budget = int(c.ms * scale), c.budget * scale
    try:
        fail = lambda o: q.put(('!fail', tup(o))) if relevant(o) else None
        r = contract.verify(P, c, on_fail=fail, grace=75 * scale)
        obs = [tup(o) for o in r.obs if relevant(o)]
        q.put((name, dict(obs=obs, every=len(r.obs), paths=r.paths, t=r.t, error=r.error, used=sorted(r.used), trusted=sorted(r.trusted),
                          executed=sorted(r.executed), summarised=sorted(map(str, r.summarised)), unrolled=sorted(map(str, r.unrolled)),
                          checks=r.checks, solver_t=r.solver_t, trace=getattr(r, 'trace', None))))
    except BaseException as e:
        q.put((name, dict(obs=[(name, 'the verifier processed the whole body: %s' % e, False, 'none', 0.0, None, traceback.format_exc()[-800:])],
                          paths=0, t=0, error=str(e), used=[], trusted=[], executed=[], summarised=[], unrolled=[], checks=0, solver_t=0)))


def lemma_work(prop, q):
    from vc import lemmas
    obs = lemmas.run(prop)
    q.put(('lemmas', dict(obs=[(o.func, o.name, o.ok, o.backend, o.t, None, o.detail) for o in obs], paths=0, t=sum(o.t for o in obs), error=None,
                          used=[], trusted=[], executed=[], summarised=[], unrolled=[], checks=len(obs), solver_t=sum(o.t for o in obs))))


def verify_all(P, contract, names, prop, end, scale=1.0, width=8, early=None):
    """every contract in its own forked process"""
    ctx = mp.get_context('fork')
    q = ctx.Queue()
    todo = list(names)
    run, res = {}, {}
    if prop:
        p = ctx.Process(target=lemma_work, args=(prop, q))
        p.start()
        run['lemmas'] = p
    while (todo or run) and time.time() < end and not (early and early.found):
        while todo and len(run) < width:
            n = todo.pop(0)
            p = ctx.Process(target=work, args=(P, contract, n, scale, q))
            p.start()
            run[n] = p
        try:
            n, r = q.get(timeout=0.5)
            if n == '!fail':
                if early:
                    early.start(r)
                end = min(end, time.time() + 200 * scale)
                continue
            res[n] = r
            run.pop(n).join(5)
        except Exception:
            for n, p in list(run.items()):
                if not p.is_alive() and q.empty():
                    p.join(1)
                    try:
                        m, r = q.get(timeout=1)
                        while m == '!fail':
                            m, r = q.get(timeout=1)
                        res[m] = r
                        run.pop(m, None)
                    except Exception:
                        run.pop(n, None)
                        res.setdefault(n, dead(n, 'the verifier process ended with status %s' % p.exitcode))
    for n, p in run.items():
        p.kill()
        p.join(2)
        res.setdefault(n, dead(n, 'stopped after a violation or at the time limit'))
    for n in todo:
        res.setdefault(n, dead(n, 'stopped after a violation or at the time limit'))
    return res


def dead(n, why):
    return dict(obs=[(n, 'the verifier processed the whole body: ' + why, False, 'none', 0.0, None, '')], paths=0, t=0, error=why,
                used=[], trusted=[], executed=[], summarised=[], unrolled=[], checks=0, solver_t=0)


class Early:
    """as soon as an obligation fails, the search for a failing input starts beside the remaining proofs"""
    def __init__(self, F, prop, seed, hint):
        self.F, self.prop, self.seed, self.hint = F, prop, seed, hint
        self.th, self.found, self.stats, self.err, self.hints = None, None, None, None, []

    def start(self, o):
        c = self.hint(o[0], o[5])
        if c and c not in self.hints:
            self.hints.append(c)
        if self.th is None:
            self.th = threading.Thread(target=self.go, daemon=True)
            self.th.start()

    def go(self):
        try:
            time.sleep(1)
            f, self.stats = self.F.run(self.prop, self.seed, 40, hints=list(self.hints), huge=True)
            self.found = f
        except Exception as e:
            self.err = e

    def wait(self):
        if self.th:
            self.th.join()


def known():
    """known-findings.txt: 'known: property=<id> <case json> :: <what>' suppresses exactly that case"""
    out = []
    try:
        for l in open(os.path.join(ROOT, 'known-findings.txt')):
            if l.startswith('known: property='):
                a, b = l[len('known: property='):].split(' ', 1)
                cs, what = b.split(' :: ', 1)
                out.append((a, json.loads(cs), what.strip()))
    except FileNotFoundError:
        pass
    return out


ASSUME = [
    'C semantics: clang -O0 + mem2reg/loop-simplify translate the sources to LLVM IR faithfully; the verifier (vc/) interprets that IR; x86-64 little-endian',
    'distinct buffer arguments do not overlap; sizes are those of real objects (message lengths below 2^61 bytes)',
    'malloc succeeds',
    'termination: every loop is shown to end, except the rejection loops of key generation and signing (they end when the random source, resp. the nonce, gives an acceptable value) and the read loop (it ends when the device keeps delivering)',
]


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'), choices=['quick', 'thorough'])
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1')))
    a = ap.parse_args()
    prop, t0 = a.prop, time.time()
    from vc import build, contract, props
    from finder import run as frun, cases
    for m in props.MODULES:
        importlib.import_module('vc.' + m)
    D = props.PROPS[prop]
    ONLY[0] = D.get('only')
    names, seen = [], set()
    stack = list(D['funcs']() if callable(D['funcs']) else D['funcs'])
    while stack:
        n = stack.pop(0)
        if n not in seen:
            seen.add(n)
            names.append(n)
            stack += [u for u in contract.CONTRACTS[n].uses if u in contract.CONTRACTS]
    names.sort(key=lambda n: -getattr(contract.CONTRACTS[n], 'cost', 1))
    F = frun.Finder()
    try:
        P = build.program()
        end = t0 + DEADLINE
        early = Early(F, prop, a.seed, cases.from_model) if prop in cases.GENS else None
        res = verify_all(P, contract, names, prop, end, early=early)
        if early:
            early.wait()
        again = [n for n in res if n != 'lemmas' and any(not o[2] for o in res[n]['obs'])]
        # undecided because of load or time: once more, alone and with more time
        slow = [n for n in again if any(not o[2] and ('unknown' in str(o[3]) or 'budget' in str(o[1]) or o[3] == 'none') for o in res[n]['obs'])]
        definite = any(not o[2] and o[5] is not None for n in res for o in res[n]['obs'])
        if slow and not definite and not (early and early.found) and time.time() < t0 + 300:
            r2 = verify_all(P, contract, slow, None, min(end, time.time() + 300), 2.0, 4)
            for n in slow:
                if sum(not o[2] for o in r2[n]['obs']) <= sum(not o[2] for o in res[n]['obs']):
                    res[n] = r2[n]
        obs = [o for n in sorted(res) for o in res[n]['obs']]
        failed = [o for o in obs if not o[2]]
        total = len(obs)
        if total == 0 or any(not res[n].get('every', 1) for n in names):
            failed = failed or [(prop, 'obligations were generated', False, 'none', 0.0, None, '')]
        hints = []
        for o in failed:
            c = cases.from_model(o[0], o[5])
            if c and c not in hints:
                hints.append(c)
        left = max(30, 860 - (time.time() - t0))
        secs = (6 if a.tier == 'quick' else 90) if not failed else min(100, left - 80)
        if early and early.found:
            found, stats = early.found, early.stats
        elif prop in cases.GENS:
            try:
                found, stats = F.run(prop, a.seed, secs, hints=hints, huge=bool(failed) and time.time() - t0 < 500)
            except Exception as e:      # the verifier decides; the concrete runs only validate
                print('  the concrete runs were not possible: %s' % str(e)[-400:])
                found, stats = None, dict(n=0, distinct=0, samples=[])
        else:
            found, stats = None, dict(n=0, distinct=0, samples=[])
    finally:
        F.close()
    kf = [k for k in known() if k[0] == prop]
    for k in kf:
        print('KNOWN-FINDING: property=%s %s' % (prop, k[2]))
    if found and any(found['case'] == k[1] for k in kf):
        found = None
    viol = bool(found or failed)
    by = {}
    for o in obs:
        by.setdefault(str(o[3]).split(':')[0], [0, 0])
        by[str(o[3]).split(':')[0]][0 if o[2] else 1] += 1
    trusted = sorted({x for r in res.values() for x in r['trusted']})
    ev = dict(property=prop, tier=a.tier, seed=a.seed, level='proof', wall_s=round(time.time() - t0, 2), violations=int(viol),
              assumptions=ASSUME + D.get('assume', []),
              coverage=dict(
                  obligations=total, discharged=sum(1 for o in obs if o[2]),
                  checker_cmd='python3-vt check.py %s --tier %s' % (prop, a.tier),
                  trusted_base=['the verifier in vc/ (IR parser, symbolic execution, loop summaries, congruence and ANF provers)', 'clang/opt 18 as translator',
                                'z3 %s' % z3v()] + ['model of external function ' + x for x in trusted],
                  by_backend={k: dict(discharged=v[0], open=v[1]) for k, v in sorted(by.items())},
                  functions_under_contract={n: dict(obligations=len(res[n]['obs']), paths=res[n]['paths'], seconds=round(res[n]['t'], 2),
                                                    solver_queries=res[n]['checks'], solver_seconds=round(res[n]['solver_t'], 2),
                                                    callee_contracts=res[n]['used'], inlined=res[n]['executed'],
                                                    loops_summarised=res[n]['summarised'], loops_unrolled=res[n]['unrolled'])
                                            for n in sorted(res)},
                  solver_seconds=round(sum(r['solver_t'] for r in res.values()), 2),
                  open_obligations=[dict(function=o[0], obligation=o[1], backend=o[3], detail=o[6]) for o in failed][:50],
                  finder=dict(label='bounded validation on concrete inputs, not counted as proof', executions=stats['n'], distinct=stats['distinct'],
                              seconds=secs, samples=stats['samples'])))
    os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
    with open(os.path.join(ROOT, 'evidence', prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    print('%s: %d functions under contract, %d of %d obligations discharged, %d concrete executions, %.0f s' % (
        prop, len(names), ev['coverage']['discharged'], total, stats['n'], time.time() - t0))
    for o in failed[:20]:
        print('  open: %s: %s [%s] %s' % (o[0], o[1], o[3], str(o[6])[:200]))
    if not viol:
        return 0
    rd = os.path.join(ROOT, 'replays')
    os.makedirs(rd, exist_ok=True)
    rep = dict(property=prop, case=found['case'] if found else None, before=found.get('before') if found else None, observed=found['what'] if found else None, stderr=found.get('stderr') if found else None,
               obligations=[dict(function=o[0], obligation=o[1], backend=o[3], counterexample=o[5], output=o[6]) for o in failed],
               replay='python3-vt finder/run.py <this file>   (runs the case against /repo)')
    path = os.path.join(rd, '%s-%s.json' % (prop, hashlib.sha1(json.dumps(rep, sort_keys=True, default=str).encode()).hexdigest()[:10]))
    with open(path, 'w') as f:
        json.dump(rep, f, indent=1, default=str)
    if found:
        print('  failing input: %s: %s' % (json.dumps(found['case'])[:600], found['what'][:600]))
    print('VIOLATION property=%s replay=%s%s' % (prop, path, '' if found else ' no-failing-input-found'))
    return 1


def z3v():
    import z3
    return z3.get_version_string()


if __name__ == '__main__':
    try:
        rc = main()
    except Exception:
        traceback.print_exc()
        rc = 2
    sys.stdout.flush()
    os._exit(rc)
