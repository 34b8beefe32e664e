"""Compiles /repo's working tree to LLVM IR (for the verifier) and to a shared library (for replays)."""
import concurrent.futures
import os
import re
import subprocess
from . import ir
from .engine import Program

from .srcs import REPO, sources

FLAGS = ['-std=gnu99', '-I' + os.path.join(REPO, 'include'), '-w']


def out_parameters(t):
    """marks static functions that get the address of a scalar local variable of their caller (or of a local structure of
    scalars, such as a cursor) for inlining, so that the variable becomes a value and not memory. Returns the marked text and
    the functions with a local structure of scalars, which need it split into its fields."""
    records = {m.group(1) for m in re.finditer(r'^(%[\w.$]+) = type \{ ((?:i\d+|ptr)(?:, (?:i\d+|ptr))*) \}$', t, flags=re.M)}
    local, calls, split = {}, {}, set()
    fn, want, deep = None, set(), set()
    for l in t.splitlines():
        m = re.match(r'define (?:dso_local )?(internal )?.*?@([\w.$]+)\(', l)
        if m:
            fn = m.group(2)
            local[fn] = bool(m.group(1))
            scal, recs = set(), set()
            continue
        m = re.match(r'\s+(%[\w.$]+) = alloca (i\d+|ptr|%[\w.$]+),', l)
        if m:
            if not m.group(2).startswith('%'):
                scal.add(m.group(1))
            elif m.group(2) in records:
                recs.add(m.group(1))
                split.add(fn)
            continue
        m = re.match(r'\s+(?:%[\w.$]+ = )?call .*?@([\w.$]+)\((.*)\)', l)
        if m and fn:
            ptrs = re.findall(r'ptr noundef (%[\w.$]+)', m.group(2))
            if ptrs:
                calls.setdefault(fn, set()).add(m.group(1))
            if any(x in scal for x in ptrs):
                want.add(m.group(1))
            if any(x in recs for x in ptrs):
                deep.add(m.group(1))
    ok = lambda f: local.get(f) and f not in KEEP
    todo = list(deep)
    while todo:                     # a structure may be handed on to further helpers
        f = todo.pop()
        if ok(f) and f not in want:
            want.add(f)
        for g in calls.get(f, ()) if ok(f) else ():
            if g not in deep:
                deep.add(g)
                todo.append(g)
    want = {f for f in want if ok(f)}
    if not want:
        return t, split
    t = re.sub(r'^(attributes #\d+ = \{.*?)\bnoinline ', r'\1', t, flags=re.M)
    return re.sub(r'^(define (?:dso_local )?internal .*?@([\w.$]+)\(.*\)) (#\d+ \{)$',
                  lambda m: m.group(1) + (' alwaysinline ' if m.group(2) in want else ' ') + m.group(3), t, flags=re.M), split


KEEP = set()        # functions under contract by name (set by program())


def run_opt(passes, text):
    o = subprocess.run(['opt', '-S', '-passes=' + passes, '-', '-o', '-'], input=text, capture_output=True, text=True)
    if o.returncode:
        raise RuntimeError('opt: ' + o.stderr[:2000])
    return o.stdout


def to_ir(src, extra=()):
    c = subprocess.run(['clang', *extra, '-O0', '-Xclang', '-disable-O0-optnone', '-fno-discard-value-names'] + FLAGS +
                       ['-S', '-emit-llvm', src, '-o', '-'], capture_output=True, text=True)
    if c.returncode:
        raise RuntimeError('clang: ' + c.stderr[:2000])
    t, split = out_parameters(c.stdout)
    if split:       # structures of scalars become their fields, in the functions that have one
        t = run_opt('always-inline', t)
        head = re.compile(r'^(define .*?@([\w.$]+)\(.*\)) (#\d+ \{)$', flags=re.M)
        mark = lambda m: m.group(0) if m.group(2) in split or ' alwaysinline ' in m.group(0) else m.group(1) + ' noinline optnone ' + m.group(3)
        t = run_opt('sroa', head.sub(mark, t))
        t = re.sub(r'^(define .*?) noinline optnone (#\d+ \{)$', r'\1 \2', t, flags=re.M)
        t = re.sub(r'^(attributes #\d+ = \{.*)$', lambda m: re.sub(r' (noinline|optnone)\b', '', m.group(1)), t, flags=re.M)
    o = run_opt('always-inline,mem2reg,loop-simplify', t)
    return re.sub(r'^ *call void @llvm\.lifetime\..*\n', '', o, flags=re.M)


HARNESS = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'harness', 'lengths.c')


def program(release=True):
    from .contract import CONTRACTS
    KEEP.update(CONTRACTS)
    srcs = sources()
    rel = list(srcs)
    with concurrent.futures.ThreadPoolExecutor(8) as p:
        extra = p.submit(to_ir, HARNESS)
        rtexts = p.map(lambda x: to_ir(x, ['-DNDEBUG']), rel) if release else ()
        texts = list(p.map(to_ir, srcs))
        rtexts = list(rtexts)
        try:
            texts.append(extra.result())
            srcs = srcs + [HARNESS]
        except RuntimeError as e:       # the contracts of the length functions then find no body
            print('lengths: ' + str(e))
    P = Program([ir.Module(t, s) for t, s in zip(texts, srcs)])
    # the same sources with assertions compiled out, for the contracts that are about that configuration
    P.release = Program([ir.Module(t, s) for t, s in zip(rtexts, rel)]) if release else None
    return P
