"""Runs the finder for a property: bounded, concrete executions of the real code (AddressSanitizer build) against the
reference implementations.  It never decides a property; it turns a failed obligation into a failing input."""
import json
import os
import shutil
import signal
import subprocess
import sys
import tempfile
import threading
import time

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
PY = sys.executable


def env(huge=False, tsan=False, ndebug=False):
    e = dict(os.environ)
    asan = subprocess.run(['gcc', '-print-file-name=libtsan.so' if tsan else '-print-file-name=libasan.so'], capture_output=True, text=True).stdout.strip()
    e['LD_PRELOAD'] = os.path.realpath(asan)
    e['ASAN_OPTIONS'] = 'detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=1:detect_stack_use_after_return=0:handle_segv=1:quarantine_size_mb=16'
    e['TSAN_OPTIONS'] = 'exitcode=66:halt_on_error=1:report_signal_unsafe=0'
    e['PYTHONDONTWRITEBYTECODE'] = '1'
    if huge:
        e['VP_HUGE'] = '1'
    if ndebug:
        e['VP_NDEBUG'] = '1'
    return e


class Finder:
    def __init__(self):
        self.dir = tempfile.mkdtemp(prefix='vp_finder_')
        self.so = None
        self.tso = None
        self.nso = None

    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)

    def build(self, arith=False, threads=False, ndebug=False):
        sys.path.insert(0, ROOT)
        from finder import lib
        self.so = lib.build(self.dir, arith=arith)
        if threads:
            d = os.path.join(self.dir, 'tsan')
            os.mkdir(d)
            self.tso = lib.build(d, tsan=True)
        if ndebug:
            d = os.path.join(self.dir, 'ndebug')
            os.mkdir(d)
            self.nso = lib.build(d, ndebug=True)

    def run(self, prop, seed, secs, workers=8, hints=(), huge=False):
        """(finding or None, statistics)"""
        if self.so is None:
            self.build(prop == 'C28', prop == 'C31', prop == 'C10')
        hf = os.path.join(self.dir, 'hints.json')
        with open(hf, 'w') as f:
            json.dump(list(hints), f)
        ps = []
        for i in range(workers):
            st = os.path.join(self.dir, 'state%d' % i)
            races = self.tso is not None and (i % 3 == 1 or workers == 1)
            release = self.nso is not None and (i % 3 == 1 or workers == 1 and any(x.get('ndebug') for x in hints))
            p = subprocess.Popen([PY, os.path.join(HERE, 'worker.py'), self.tso if races else self.nso if release else self.so, prop, '%d.%d' % (seed, i), str(secs), st] + ([hf] if i == 0 else []),
                                 stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env(huge and i == 0, races, release), text=True, errors='replace')
            p.races = races
            ps.append((p, st))
        stats = dict(n=0, distinct=0, samples=[])
        found = None
        outs, lim = {}, time.time() + secs + (280 if huge or hints else 70)
        ths = []
        for p, st in ps:
            th = threading.Thread(target=lambda p=p: outs.__setitem__(p.pid, p.communicate()), daemon=True)
            th.start()
            ths.append(th)
        while any(t.is_alive() for t in ths) and time.time() < lim:
            time.sleep(0.05)
        late = {p.pid for (p, _), t in zip(ps, ths) if t.is_alive()}
        for p, _ in ps:
            if p.pid in late:
                p.kill()
        for t in ths:
            t.join(20)
        for p, st in ps:
            o, e = outs.get(p.pid, ('', ''))
            hang = p.pid in late or p.returncode == -signal.SIGALRM
            r = None
            try:
                r = json.loads(o.strip().splitlines()[-1])
            except Exception:
                pass
            if r is not None and p.returncode == 0 and not hang:
                stats['n'] += r['n']
                stats['distinct'] += r['distinct']
                stats['samples'] = stats['samples'] or r['samples']
                if r.get('case') and found is None:
                    found = dict(case=r['case'], what=r['what'], before=r.get('before') or [])
            elif found is None:
                size, c = 0, None
                try:
                    b = open(st, 'rb').read()
                    size = int.from_bytes(b[:8], 'little')
                    c = json.loads(b[8:8 + size])
                except Exception:
                    pass
                if hang and (c is None or size > 50000 or p.pid in late):
                    continue        # a call on a huge input may take that long
                if p.returncode == -signal.SIGKILL:
                    continue        # ended from outside (memory)
                if p.races and 'data race' not in e:
                    continue        # the race detector could not run here
                if 'Traceback' in e and 'data race' not in e and 'AddressSanitizer' not in e and 'runtime error' not in e and 'Assertion' not in e:
                    raise RuntimeError('finder worker failed: ' + e[-2000:])
                lines = [x for x in e.splitlines() if 'ERROR' in x or 'runtime error' in x or 'Assertion' in x or 'SUMMARY' in x or 'FATAL' in x.upper()]
                found = dict(case=c, what='the call does not return' if hang else 'two threads race: ' + ' | '.join(x.strip() for x in e.splitlines() if 'SUMMARY' in x or ' #0 ' in x)[:600] if p.races else 'the call ends the process (status %s): %s' % (p.returncode, ' | '.join(lines[:3]) or e[-400:]),
                             stderr=e[-3000:])
        return found, stats


def replay(path):
    d = json.load(open(path))
    if not d.get('case'):
        print(json.dumps(d, indent=1))
        return 0
    f = Finder()
    try:
        r, _ = f.run(d['property'], 1, 0, 1, [d['case']])
        if r is None and d.get('before'):     # the failure may need the calls made before
            r, _ = f.run(d['property'], 1, 0, 1, d['before'] + [d['case']])
        print(json.dumps(r or 'the case passes', indent=1))
        return 1 if r else 0
    finally:
        f.close()


if __name__ == '__main__':
    if sys.argv[1].endswith('.json'):
        sys.exit(replay(sys.argv[1]))
    f = Finder()
    try:
        for p in sys.argv[1].split(','):
            r, s = f.run(p, 1, float(sys.argv[2]) if len(sys.argv) > 2 else 3)
            s['samples'] = None
            print(p, r, s)
    finally:
        f.close()
