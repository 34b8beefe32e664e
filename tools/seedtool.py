#!/usr/bin/env python3
"""Confirm seeded bugs: tools/seedtool.py make ID < spec | confirm ID...
A seed directory gets patch.diff from a scratch copy; confirm builds, tests and runs demo clean/patched."""
import sys, os, subprocess, json, shutil, tempfile
V = '/verif/seeded'
def sh(cmd, cwd, **k): return subprocess.run(cmd, shell=True, cwd=cwd, capture_output=True, text=True, **k)
def confirm(id):
    d = f'{V}/{id}'
    assert sh('pgrep -f "/opt/[v](gate|check)"', '/').stdout.strip() == '', 'vcheck is running'
    assert sh('git status --porcelain', '/repo').stdout.strip() == '', 'repo dirty'
    ok = True
    base = set(json.load(open('/opt/vp/BASELINE.json')).get('passed') or json.load(open('/opt/vp/BASELINE.json')).get('stable'))
    sh('bash /opt/vp/build.sh', '/repo')
    tmp = tempfile.mkdtemp(prefix='seed')
    shutil.copy(f'{d}/demo.sh', tmp)
    for f in os.listdir(d):
        if not f.endswith(('.diff', '.json')): shutil.copy(f'{d}/{f}', tmp)
    r = sh(f'timeout 300 bash {tmp}/demo.sh', '/repo')
    if r.returncode != 0: ok = False; print('demo fails clean', r.stdout[-500:], r.stderr[-500:])
    r = sh(f'git apply {d}/patch.diff', '/repo'); assert r.returncode == 0, r.stderr
    try:
        b = sh('bash /opt/vp/build.sh', '/repo')
        if b.returncode: ok = False; print('build fails', b.stdout[-800:])
        sh('bash /opt/vp/test.sh /tmp/seedt.json', '/repo')
        p = set(json.load(open('/tmp/seedt.json'))['passed'])
        if base - p: ok = False; print('tests fail', base - p)
        r = sh(f'timeout 300 bash {tmp}/demo.sh', '/repo')
        if r.returncode == 0: ok = False; print('demo passes patched')
        else: print('   demo:', (r.stdout + r.stderr).strip()[-160:].replace('\n', ' | '))
    finally:
        sh('git checkout -- .', '/repo'); sh('bash /opt/vp/build.sh', '/repo')
        shutil.rmtree(tmp)
    print(id, 'OK' if ok else 'BAD', flush=True)
    return ok
DEMO = '''#!/bin/bash
# exit 0: behaves as specified; nonzero: broken
d=$(cd "$(dirname "$0")" && pwd); t=$(mktemp -d); trap 'rm -rf "$t"' EXIT
gcc -w -g -O1 %s -Iinclude "$d/demo.c" %s -lsecp256k1 -o "$t/demo" || exit 3
cd "$t" && timeout 250 ./demo
'''
LIB = '_build/repo/libfingera_libc.a'
SRC = '$(find src -name "*.c")'
def make(id, prop, edits, demo, needs, breaks, asan=False, cdemo=True):
    """edits: [(file, old, new)]"""
    d = f'{V}/{id}'; os.makedirs(d, exist_ok=True)
    w = tempfile.mkdtemp(prefix='seedm')
    try:
        sh(f'git -C /repo archive HEAD | tar -x -C {w} && git init -q && git add -A', w)
        for e in edits:
            f, old, new = e[:3]; nth = e[3] if len(e) > 3 else None
            s = open(f'{w}/{f}').read()
            if nth is None: assert s.count(old) == 1, (f, old, s.count(old)); s = s.replace(old, new)
            else:
                i = -1
                for _ in range(nth + 1): i = s.index(old, i + 1)
                s = s[:i] + new + s[i + len(old):]
            open(f'{w}/{f}', 'w').write(s)
        open(f'{d}/patch.diff', 'w').write(sh('git diff', w).stdout)
    finally: shutil.rmtree(w)
    open(f'{d}/demo.c', 'w').write(demo)
    open(f'{d}/demo.sh', 'w').write(DEMO % (('-fsanitize=address,undefined -fno-sanitize=alignment', SRC) if asan else ('', LIB)))
    json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(f'{d}/meta.json', 'w'), indent=1)
if __name__ == '__main__':
    ids = sys.argv[1:] or sorted(os.listdir(V))
    bad = [i for i in ids if not confirm(i)]
    print('bad:', bad)
