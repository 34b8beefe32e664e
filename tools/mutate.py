#!/opt/veriftools/pyvenv/bin/python
"""mutate.py OUT [FILE substrings]: generate small mutants of /repo's sources, drop those that do not compile, are identical
after optimisation or fail the test suite; run the contracts of the functions they touch; report what stays undetected.
Works on copies only."""
import json, multiprocessing as mp, os, random, re, shutil, subprocess, sys, time
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.setrecursionlimit(20000)
W = '/tmp/mt'
REPO = '/repo'
STABLE = [x.replace('::', '.') for x in json.load(open('/opt/vp/BASELINE.json'))['stable']]


def sh(c, **k):
    return subprocess.run(c, shell=True, capture_output=True, text=True, errors='replace', **k)


REL = [('<=', '<'), ('>=', '>'), ('==', '!='), ('!=', '=='), ('&&', '||'), ('||', '&&'), ('<<', '>>'), ('>>', '<<')]


def mutants(path):
    s = open(path).read()
    out = []
    fn = None
    depth = 0
    off = 0
    skip_if = False
    for ln in s.splitlines(True):
        st = ln.strip()
        m = re.match(r'[A-Za-z_].*?\b(\w+)\s*\(', ln)
        if depth == 0 and m and not st.startswith('#') and not ln.rstrip().endswith(';'):
            fn = m.group(1)
        d0 = depth
        depth += ln.count('{') - ln.count('}')
        if re.match(r'#if.*(WIN32|_MSC_VER|__APPLE__)', st):
            skip_if = True
        if st.startswith(('#else', '#endif')):
            skip_if = False
        code = ln.split('//')[0]
        if d0 > 0 and fn and not skip_if and not st.startswith(('#', '//', '/*', '*')) and '0xff, 0xff' not in ln.lower() and 'assert' not in ln and not re.match(r'-?\d+, +-?\d+, +-?\d+', st):
            def put(a, b, new, what):
                out.append((fn, off + a, off + b, new, what))
            for m in re.finditer(r'<=|>=|==|!=|&&|\|\||<<|>>|->|\+\+|--|[-+*/&|^%]=|[<>]|[-+&|!]', code):
                t = m.group()
                for a, b in REL:
                    if t == a:
                        put(m.start(), m.end(), b, '%s to %s' % (a, b))
                if t == '<' and '#include' not in code:
                    put(m.start(), m.end(), '<=', '< to <=')
                if t == '>':
                    put(m.start(), m.end(), '>=', '> to >=')
                if t in '+-' and code[m.end():m.end() + 1] == ' ':
                    put(m.start(), m.end(), '-' if t == '+' else '+', t + ' flipped')
                if t in '&|' and code[m.end():m.end() + 1] == ' ':
                    put(m.start(), m.end(), '|' if t == '&' else '&', t + ' flipped')
                if t == '!':
                    put(m.start(), m.end(), '', 'negation dropped')
            for m in re.finditer(r'\b(0[xX][0-9a-fA-F]+|\d+)(ull|ul|u|UL|ULL)?\b', code):
                v = int(m.group(1), 0)
                suf = m.group(2) or ''
                for k in (v + 1, v - 1):
                    if k >= 0:
                        put(m.start(), m.end(), '%d%s' % (k, suf), '%d to %d' % (v, k))
            for m in re.finditer(r'\b(size_t|uint64_t|uint32_t|int64_t|int|unsigned char|uint8_t)\b(?! *\))', code):
                for k in {'size_t': ['uint32_t', 'uint8_t', 'uint16_t'], 'uint64_t': ['uint32_t'], 'uint32_t': ['uint16_t'], 'int64_t': ['int32_t'], 'int': ['int8_t', 'uint16_t'],
                          'unsigned char': ['char'], 'uint8_t': ['int8_t']}[m.group(1)]:
                    put(m.start(), m.end(), k, 'type %s' % k)
            for m in re.finditer(r'\((size_t|uint64_t|uint32_t|uint8_t|unsigned char|int)\)', code):
                put(m.start(), m.end(), '', 'cast dropped')
            if re.match(r'\s+[\w\[\]>.*()+ -]+ ?([-+*/&|^]|<<|>>)?= .*;$|\s+\w+\(.*\);$|\s+(\w+)(\+\+|--);$|\s+(break|continue);$', code.rstrip()) and not re.match(r'\s+(const |static |u?int|size_t|char|unsigned)', code):
                put(len(code) - len(code.lstrip()), len(code.rstrip()), ';', 'statement dropped')
            m = re.search(r'\bif \((.*)\) ?(\{|return|break|.*;)', code)
            if m:
                put(m.start(1), m.end(1), '0', 'condition false')
                put(m.start(1), m.end(1), '1', 'condition true')
        off += len(ln)
    return s, out


def screen(a):
    """-> None when uninteresting"""
    i, rel, text = a
    d = '%s/s%d' % (W, i)
    os.makedirs(d, exist_ok=True)
    try:
        c = d + '/' + os.path.basename(rel)
        open(c, 'w').write(text)
        inc = '-I%s/include -I%s' % (REPO, os.path.dirname(os.path.join(REPO, rel)))
        r = sh('gcc -std=gnu99 -w -O2 -g0 %s -S -o %s/a.s %s && gcc -std=gnu99 -w -O2 -g0 %s -S -o %s/b.s %s/%s' % (inc, d, c, inc, d, REPO, rel))
        if r.returncode:
            return None
        strip = lambda p: re.sub(r'\.file.*', '', open(p).read())
        if strip(d + '/a.s') == strip(d + '/b.s'):
            return None
        r = sh('gcc -std=gnu99 -w -g %s -c -o %s/m.o %s && cp %s/_build/repo/libfingera_libc.a %s/l.a && O=$(ar t %s/l.a | grep -x "%s.o") && cp %s/m.o %s/$O' % (
            inc, d, c, REPO, d, d, re.escape(os.path.basename(rel)), d, d))
        if r.returncode:
            return None
        # two members may share a name (hash.c): link the mutant first instead
        B = REPO + '/_build'
        r = sh('cd %s && g++ -g $(find repo/tests/CMakeFiles/test_fingera.dir -name "*.o") %s/m.o -Wl,--allow-multiple-definition -o %s/t repo/libfingera_libc.a lib/libgtest_main.a -lsecp256k1 lib/libgtest.a' % (B, d, d))
        if r.returncode:
            return None
        r = sh('cd %s && timeout 20 ./t --gtest_filter=%s' % (d, ':'.join(STABLE)))
        return None if r.returncode else i
    finally:
        shutil.rmtree(d, ignore_errors=True)


def graph(P, contract):
    """contract name -> functions executed in place"""
    defs = {}
    for m in P.mods:
        for f in m.funcs.values():
            if f.blocks:
                defs.setdefault(f.name, f)
    return defs


def verify(a):
    i, rel, text, fn, names = a
    d = '%s/v%d' % (W, i)
    shutil.rmtree(d, ignore_errors=True)
    sh('git clone -q %s %s' % (REPO, d))
    open(os.path.join(d, rel), 'w').write(text)
    try:
        r = sh('timeout 500 python3-vt %s/tools/mutate.py --one %s' % (os.path.dirname(os.path.dirname(os.path.abspath(__file__))), ' '.join("'%s'" % n for n in names)), env=dict(os.environ, VC_REPO=d))
        return i, r.stdout.strip().splitlines()[-1:] or ['timeout or error ' + r.stderr[-200:]]
    finally:
        shutil.rmtree(d, ignore_errors=True)


def one(names):
    from vc import build, contract, props
    props.everything()
    P = build.program()
    for n in names:
        c = contract.CONTRACTS[n]
        bad = []
        r = contract.verify(P, c, on_fail=lambda o: bad.append(o), grace=1)
        bad = bad or [o for o in r.obs if not o.ok]
        if bad:
            print('caught %s: %s [%s]' % (n, bad[0].name, bad[0].backend))
            return
    print('MISSED by %s' % ', '.join(names))


def main():
    out = sys.argv[1]
    sel = [x for x in sys.argv[2:] if not x.startswith('-')]
    jobs = int(os.environ.get('J', '4'))
    frac = float(os.environ.get('FRAC', '1'))
    from vc import build, contract, props
    props.everything()
    P = build.program()
    used = json.load(open(W + '/executed.json'))
    rnd = random.Random(5)
    todo = []
    for p in sorted(os.popen('cd %s && ls src/*.c src/*/*.c' % REPO).read().split()):
        if sel and not any(x in p for x in sel):
            continue
        s, ms = mutants(os.path.join(REPO, p))
        for fn, a, b, new, what in ms:
            names = [n for n, (src, fs) in used.items() if fn in fs and n in contract.CONTRACTS]
            names.sort(key=lambda n: (not n.startswith(fn), len(used[n][1])))
            names = names[:2 if names and names[0].startswith(fn) else 4]
            if names and rnd.random() < frac:
                todo.append((p, s[:a] + new + s[b:], fn, names, '%s:%d %s: %s' % (p, s.count('\n', 0, a) + 1, what, s[s.rfind('\n', 0, a) + 1:s.find('\n', a)].strip())))
    print(len(todo), 'mutants', flush=True)
    alive = []
    with mp.Pool(jobs) as pool:
        for i in pool.imap_unordered(screen, [(i, t[0], t[1]) for i, t in enumerate(todo)], 4):
            if i is not None:
                alive.append(i)
    alive.sort()
    print(len(alive), 'pass the tests', flush=True)
    json.dump([(todo[i][0], todo[i][1], todo[i][2], todo[i][3], todo[i][4]) for i in alive], open(W + '/alive_%s.json' % os.path.basename(out), 'w'))
    with mp.Pool(jobs) as pool, open(out, 'w') as f:
        for i, res in pool.imap_unordered(verify, [(i, todo[i][0], todo[i][1], todo[i][2], todo[i][3]) for i in alive]):
            f.write('%s | %s\n' % (res[0], todo[i][4]))
            f.flush()


if sys.argv[1] == '--one':
    one(sys.argv[2:])
else:
    main()
