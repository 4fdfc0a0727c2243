"""compiles AMPE's kernels from the current directory (the repository) in a scratch folder and calls them"""
import ctypes as C, glob, os, subprocess, sys, tempfile, shutil
import numpy as np


def build(dim, names, cxx=()):
    src = os.path.join(os.getcwd(), 'source')
    fd = os.path.join(src, 'fortran')
    tmp = tempfile.mkdtemp(prefix='demo')
    try:
        fs = [os.path.join(fd, f) for f in ('functions.f', 'quat.f')]
        for n in names:
            f = os.path.join(tmp, n + '.f')
            with open(f, 'w') as o:
                subprocess.check_call(['m4', '-DSAMRAI_FORTDIR=' + fd, os.path.join(fd, '%dd' % dim, n + '.m4')], stdout=o)
            fs.append(f)
        so = os.path.join(tmp, 'l.so')
        subprocess.check_call(['gfortran', '-O1', '-fPIC', '-shared', '-w', '-o', so] + fs, cwd=tmp)
        return C.CDLL(so)
    finally:
        shutil.rmtree(tmp)


class A:
    """a field on cells (side=None) or sides, indexed by grid index"""
    def __init__(self, lo, hi, ng=0, side=None, depth=None, fill=0., integer=False):
        self.lo = [l - ng for l in lo]
        n = [h - l + 1 + 2 * ng for l, h in zip(lo, hi)]
        if side is not None:
            n[side] += 1
        if depth:
            n += list(depth) if isinstance(depth, (tuple, list)) else [depth]
        self.a = np.full(n, fill, dtype=np.int32 if integer else np.float64, order='F')

    def ix(self, c):
        d = len(self.lo)
        return tuple(x - l for x, l in zip(c[:d], self.lo)) + tuple(c[d:])

    def __getitem__(self, c):
        return self.a[self.ix(c)]

    def __setitem__(self, c, v):
        self.a[self.ix(c)] = v

    def set(self, f):
        """f(index) for every entry (components from 0)"""
        for i in np.ndindex(*self.a.shape):
            d = len(self.lo)
            self.a[i] = f(*[i[k] + self.lo[k] for k in range(d)], *i[d:])
        return self


def call(lib, name, *args):
    conv, lens, keep = [], [], []
    for a in args:
        if isinstance(a, A):
            a = a.a
        if isinstance(a, str):
            b = C.create_string_buffer(a.encode(), len(a) + 1)
            keep.append(b); conv.append(b); lens.append(C.c_size_t(len(a)))
            continue
        if isinstance(a, (list, tuple)):
            a = np.array(a, dtype=np.float64 if isinstance(a[0], float) else np.int32)
        elif isinstance(a, (bool, int)):
            a = np.array([a], dtype=np.int32)
        elif isinstance(a, float):
            a = np.array([a])
        keep.append(a)
        conv.append(C.c_void_p(a.ctypes.data))
    f = getattr(lib, name + '_')
    f.restype = None
    f(*conv, *lens)


def func(lib, name, *args):
    conv, lens, keep = [], [], []
    for a in args:
        if isinstance(a, str):
            b = C.create_string_buffer(a.encode(), len(a) + 1)
            keep.append(b); conv.append(b); lens.append(C.c_size_t(len(a)))
        else:
            a = np.array([a], dtype=np.int32 if isinstance(a, int) else np.float64)
            keep.append(a); conv.append(C.c_void_p(a.ctypes.data))
    f = getattr(lib, name + '_')
    f.restype = C.c_double
    return f(*conv, *lens)


def expect(cond, msg):
    if not cond:
        print('FAILED:', msg)
        sys.exit(1)


def close(a, b, tol=1e-9):
    return abs(a - b) <= tol * (1 + abs(b))


def idx(lo, hi):
    for i in np.ndindex(*[h - l + 1 for l, h in zip(lo, hi)]):
        yield tuple(x + l for x, l in zip(i, lo))
