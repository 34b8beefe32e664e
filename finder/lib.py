"""Replay build of /repo's working tree (gcc, AddressSanitizer) and ctypes access with exactly sized buffers."""
import ctypes
import os
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.dirname(HERE))


def build(dst, asan=True, arith=False, tsan=False, ndebug=False):
    from vc import srcs
    san = ['-fsanitize=address', '-fno-omit-frame-pointer'] if asan else []
    if tsan:
        san = ['-fsanitize=thread', '-fno-omit-frame-pointer']
    if arith:
        san += ['-fsanitize=shift,signed-integer-overflow,integer-divide-by-zero', '-fno-sanitize-recover=all']
    common = ['gcc', '-std=gnu99', '-g', '-O1', '-fPIC', '-w', '-I', os.path.join(srcs.REPO, 'include')] + san + (['-DNDEBUG'] if ndebug else [])
    jobs = []
    for i, s in enumerate(srcs.sources()):
        jobs.append((common + ['-include', os.path.join(HERE, 'hook.h'), '-c', s, '-o', os.path.join(dst, 's%d.o' % i)], os.path.join(dst, 's%d.o' % i)))
    jobs.append((common + ['-I', HERE, '-c', os.path.join(HERE, 'hook.c'), '-o', os.path.join(dst, 'hook.o')], os.path.join(dst, 'hook.o')))

    def run(j):
        r = subprocess.run(j[0], capture_output=True, text=True)
        if r.returncode:
            raise RuntimeError(r.stderr[:3000])
        return j[1]
    with ThreadPoolExecutor(8) as p:
        objs = list(p.map(run, jobs))
    so = os.path.join(dst, 'libf.so')
    r = subprocess.run(['gcc', '-shared', '-o', so] + objs + san + ['-lsecp256k1'], capture_output=True, text=True)
    if r.returncode:
        raise RuntimeError(r.stderr[:3000])
    return so


class Lib:
    def __init__(self, so):
        self.so = ctypes.CDLL(so)
        self.c = ctypes.CDLL(None)
        self.c.malloc.restype = ctypes.c_void_p
        self.c.malloc.argtypes = [ctypes.c_size_t]
        self.c.free.argtypes = [ctypes.c_void_p]
        self.bufs = []

    def inp(self, data):
        n = len(data)
        p = self.c.malloc(n)
        if n:
            ctypes.memmove(p, bytes(data), n)
        self.bufs.append((p, bytes(data)))
        return p

    def out(self, n, fill=0xA5):
        p = self.c.malloc(n)
        if n:
            ctypes.memset(p, fill, n)
        self.bufs.append((p, None))
        return p

    def get(self, p, n):
        return ctypes.string_at(p, n) if n else b''

    def done(self):
        """free every buffer of the case; returns the inputs that were changed"""
        bad = []
        for p, d in self.bufs:
            if d is not None and self.get(p, len(d)) != d:
                bad.append((d.hex(), self.get(p, len(d)).hex()))
            self.c.free(p)
        self.bufs = []
        return bad

    def call(self, name, *args, res='size_t'):
        f = getattr(self.so, name)
        f.restype = {'size_t': ctypes.c_size_t, 'int': ctypes.c_int, 'void': None, 'u32': ctypes.c_uint32, 'ptr': ctypes.c_void_p}[res]
        a = []
        for x in args:
            if isinstance(x, int):
                a.append(ctypes.c_uint64(x & (1 << 64) - 1))
            else:
                a.append(x)
        return f(*a)

    def var(self, name, ty=ctypes.c_int):
        return ty.in_dll(self.so, name)
