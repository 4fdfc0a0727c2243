"""Driver library: calls AMPE's real kernels (ctypes) and records ndjson traces.

A trace event holds the inputs of a kernel call and the values the kernel
produced, as scaled integers (all drivers choose dyadic inputs for which the
exact result is representable).  The judgement is made by TLC against the
TLA+ specification, never here.
"""
import ctypes as C, json, os, random, math, itertools, sys
import numpy as np

LIM = 1 << 30
NANCODE = 1073741827      # not finite
BIGCODE = 1073741829      # out of the trace's integer range
FRACCODE = 1073741831     # not on the dyadic grid of the event


def enc(x, scale=1, tol=None):
    """x*scale as an integer; values off the grid become FRACCODE."""
    y = float(x) * scale
    if not math.isfinite(y):
        return NANCODE
    if abs(y) >= LIM:
        return BIGCODE
    r = round(y)
    t = 1e-7 if tol is None else tol
    if abs(y - r) > t * max(1.0, 1e-3 * abs(y)):
        return FRACCODE
    return int(r)


def encr(x, scale):
    """x*scale rounded to the nearest integer (for quantities off the grid)."""
    y = float(x) * scale
    if not math.isfinite(y):
        return NANCODE
    if abs(y) >= LIM:
        return BIGCODE
    return int(round(y))


class Lib:
    def __init__(self, path, dim):
        self.l = C.CDLL(path)
        self.dim = dim
        self.calls = 0

    def _conv(self, args):
        conv, lens, keep = [], [], []
        for a in args:
            if isinstance(a, str):
                b = C.create_string_buffer(a.encode(), len(a) + 1)
                keep.append(b); conv.append(b); lens.append(C.c_size_t(len(a)))
            elif isinstance(a, Field):
                conv.append(a.ptr())
            elif isinstance(a, np.ndarray):
                keep.append(a); conv.append(C.c_void_p(a.ctypes.data))
            elif isinstance(a, (bool, int, np.integer)):
                v = C.c_int(int(a)); keep.append(v); conv.append(C.byref(v))
            elif isinstance(a, (float, np.floating)):
                v = C.c_double(float(a)); keep.append(v); conv.append(C.byref(v))
            elif isinstance(a, (list, tuple)):
                if a and isinstance(a[0], float):
                    v = np.array(a, dtype=np.float64)
                else:
                    v = np.array(a, dtype=np.int32)
                keep.append(v); conv.append(C.c_void_p(v.ctypes.data))
            else:
                conv.append(a)
        return conv + lens, keep

    def call(self, name, *args):
        f = getattr(self.l, name.lower() + '_')
        f.restype = None
        conv, keep = self._conv(args)
        f(*conv)
        self.calls += 1

    def fn(self, name, *args):
        f = getattr(self.l, name.lower() + '_')
        f.restype = C.c_double
        conv, keep = self._conv(args)
        self.calls += 1
        return f(*conv)


SENT = -7.25e30   # value outside every trace range: reading it shows up as BIGCODE


class Field:
    """Array over the index box [lo-ng, hi+ng] (+1 in direction `side`), with
    `depth` components (shape extra dims allowed), inside a guarded buffer."""
    def __init__(self, lo, hi, ng=0, side=None, depth=None, init=None, integer=False):
        if isinstance(ng, int):
            ng = [ng] * len(lo)
        self.lo = [l - g for l, g in zip(lo, ng)]
        self.hi = [h + g + (1 if side == d else 0) for d, (h, g) in enumerate(zip(hi, ng))]
        self.extra = () if depth is None else ((depth,) if isinstance(depth, int) else tuple(depth))
        shape = tuple(h - l + 1 for l, h in zip(self.lo, self.hi)) + self.extra
        n = int(np.prod(shape))
        self.G = 64
        self.integer = integer
        dt = np.int32 if integer else np.float64
        self.buf = np.full(n + 2 * self.G, -77777 if integer else SENT, dtype=dt)
        self.a = self.buf[self.G:self.G + n].reshape(shape, order='F')
        assert self.a.base is not None
        if init is not None:
            self.fill(init)
        else:
            self.a[...] = -77777 if integer else SENT

    def fill(self, init):
        if callable(init):
            dims = len(self.lo)
            for ix in np.ndindex(*self.a.shape):
                c = tuple(ix[d] + self.lo[d] for d in range(dims))
                self.a[ix] = init(c) if not self.extra else init(c, *ix[dims:])
        else:
            self.a[...] = init

    def ptr(self):
        return C.c_void_p(self.buf.ctypes.data + self.G * self.buf.itemsize)

    def guard_ok(self):
        s = -77777 if self.integer else SENT
        return bool((self.buf[:self.G] == s).all() and (self.buf[-self.G:] == s).all())

    def idx(self, c):
        return tuple(x - l for x, l in zip(c, self.lo))

    def get(self, c, *m):
        return self.a[self.idx(c) + tuple(m)]

    def set(self, c, v, *m):
        self.a[self.idx(c) + tuple(m)] = v

    def comp(self, *m):
        """view of one component, as a Field-like for logging"""
        f = object.__new__(Field)
        f.lo, f.hi, f.extra, f.integer = self.lo, self.hi, (), self.integer
        f.a = self.a[(Ellipsis,) + tuple(m)]
        return f

    def copy(self):
        f = object.__new__(Field)
        f.lo, f.hi, f.extra, f.integer, f.G = list(self.lo), list(self.hi), self.extra, self.integer, self.G
        f.buf = self.buf.copy()
        f.a = f.buf[f.G:len(f.buf) - f.G].reshape(self.a.shape, order='F')
        return f

    def log(self, scale=1, rnd=False):
        if self.extra:
            if len(self.extra) == 1:
                return [self.comp(m).log(scale, rnd) for m in range(self.extra[0])]
            return [[self.comp(m, n).log(scale, rnd) for n in range(self.extra[1])]
                    for m in range(self.extra[0])]
        n = [h - l + 1 for l, h in zip(self.lo, self.hi)]
        s, st = [], 1
        for k in n:
            s.append(st); st *= k
        b = 1 - sum(l * q for l, q in zip(self.lo, s))
        e = encr if rnd else enc
        v = [e(x, scale) for x in self.a.ravel(order='F')]
        return {'lo': self.lo, 'hi': self.hi, 's': s, 'b': b, 'v': v}


def bx(lo, hi):
    r = []
    for l, h in zip(lo, hi):
        r += [l, h]
    return r


def fb(f):
    """explicit bounds of an array, as the ...lo0,hi0,lo1,hi1 arguments"""
    r = []
    for d in range(len(f.lo)):
        r += [f.lo[d], f.hi[d]]
    return r


def cells(lo, hi):
    return itertools.product(*[range(l, h + 1) for l, h in zip(lo, hi)])


class Trace:
    def __init__(self, path):
        self.f = open(path, 'w')
        self.n = 0
        self.sc = 0
        self.kinds = {}

    def scenario(self):
        self.sc += 1

    def ev(self, kind, **kw):
        self.n += 1
        self.kinds[kind] = self.kinds.get(kind, 0) + 1
        d = {'ev': kind, 'id': self.n, 'sc': self.sc}
        d.update(kw)
        self.f.write(json.dumps(d, separators=(',', ':')) + '\n')

    def close(self):
        self.f.close()


class Ctx:
    """what a driver gets: libs per dimension, rng, trace, tier"""
    def __init__(self, trace, libs, seed, tier):
        self.t, self.libs, self.tier = trace, libs, tier
        self.rng = random.Random(seed)

    @property
    def thorough(self):
        return self.tier == 'thorough'

    def n(self, quick, thorough=None):
        if self.thorough:
            return thorough if thorough is not None else 6 * quick
        return quick

    def box(self, dim, mn=1, mx=None):
        r = self.rng
        mx = mx or (4 if dim == 2 else 3)
        lo = [r.randint(-5, 4) for _ in range(dim)]
        hi = [l + r.randint(mn, mx) - 1 for l in lo]
        return lo, hi

    def dx(self, dim, mn=0, mx=2):
        """grid spacings 2^-k: returns (h list, inverse ints)"""
        k = [self.rng.randint(mn, mx) for _ in range(dim)]
        return [2.0 ** -a for a in k], [2 ** a for a in k]

    def ints(self, lo, hi):
        return lambda *a: float(self.rng.randint(lo, hi))
