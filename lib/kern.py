"""Declarative registry of AMPE kernels: how each is called, on which fields.

A kernel entry names its input and output fields (centering, depth, which
ghost cells it may read) and how the argument list is built for dimension 2
and 3.  The drivers use it to run the real kernel on random dyadic data and to
record the call as a trace event.  No expected value is computed here.
"""
import math
import numpy as np
from amk import Field, bx, fb, cells, enc, encr, SENT

NAN = float('nan')
REG = {}


# ---- which index positions a kernel may read -------------------------------
def _out(c, lo, hi):
    return [max(l - x, x - h, 0) for x, l, h in zip(c, lo, hi)]


def interior(c, lo, hi):
    return sum(_out(c, lo, hi)) == 0


def star(n):
    def f(c, lo, hi):
        o = _out(c, lo, hi)
        return max(o) <= n and sum(1 for x in o if x) <= 1
    return f


def boxn(n):
    def f(c, lo, hi):
        return max(_out(c, lo, hi)) <= n
    return f


class FS:
    """field spec"""
    def __init__(self, name, kind='c', depth=None, gen=None, ng=0, need=interior, scale=1, post=None, rnd=False,
                 fixed_ng=False, init=None, integer=False, pre=False, pad=True, nolog=False,
                 prescale=None, same=None):
        self.name, self.kind, self.depth, self.gen, self.ng, self.need = name, kind, depth, gen, ng, need
        self.scale, self.post, self.rnd, self.fixed_ng = scale, post, rnd, fixed_ng
        self.init, self.integer, self.pre, self.nolog = init, integer, pre, nolog
        self.prescale, self.same = prescale, same


class Arr:
    """a field of the run: list of Field (one per direction for sides)"""
    def __init__(self, spec, fs, ng):
        self.spec, self.fs, self.ng = spec, fs, ng


def alloc(spec, lo, hi, ng, depth, dim):
    if spec.kind == 'c':
        return [Field(lo, hi, ng, None, depth, integer=spec.integer)]
    return [Field(lo, hi, ng, d, depth, integer=spec.integer) for d in range(dim)]


class Run:
    pass


class K:
    def __init__(self, key, sub, ins, outs, args, params=None, dims=(2, 3), setup=None, tag=None, hexp=(0, 2),
                 patchable=True, scalars=None):
        self.key, self.sub, self.ins, self.outs, self.args = key, sub, ins, outs, args
        self.params, self.dims, self.setup = params, dims, setup
        self.tag = tag
        self.hexp = hexp
        self.patchable = patchable
        self.scalars = scalars      # (r, ctx) -> {name: [in/out array, scale]}
        REG[key] = self

    def subname(self, dim):
        return self.sub if isinstance(self.sub, str) else self.sub[dim]

    def _depth(self, spec, r):
        d = spec.depth
        if d is None:
            return None
        if callable(d):
            return d(r)
        if d == 'dim':
            return r.dim
        return d

    def prepare(self, ctx, dim, lo=None, hi=None, p=None, ngx=None, mn=1, mx=None):
        r = Run()
        r.k, r.dim = self, dim
        if lo is None:
            lo, hi = ctx.box(dim, mn, mx)
        r.lo, r.hi = list(lo), list(hi)
        r.h, r.ih = ctx.dx(dim, *self.hexp)
        r.rng = ctx.rng
        r.p = {}
        r.lp = {}          # logged (integer) parameters
        r.f = {}
        if self.params:
            self.params(r, ctx)
        if p:
            r.p.update(p)
        for spec in self.ins + self.outs:
            extra = 0 if spec.fixed_ng else (ctx.rng.randint(0, 1) if ngx is None else ngx)
            ng = spec.ng + extra
            if spec.same:
                ng = r.f[spec.same].ng
            a = Arr(spec, alloc(spec, r.lo, r.hi, ng, self._depth(spec, r), dim), ng)
            a.depth = self._depth(spec, r)
            r.f[spec.name] = a
        for spec in self.ins:
            self.fill(r, spec, ctx)
        for spec in self.outs:
            a = r.f[spec.name]
            if spec.init is not None:
                g = spec.init(r, ctx) if callable(spec.init) else spec.init
                for f in a.fs:
                    f.fill(g)
        if self.setup:
            self.setup(r, ctx)
        for spec in self.ins:
            self.mask(r, spec)
        r.s = self.scalars(r, ctx) if self.scalars else {}
        return r

    def fill(self, r, spec, ctx):
        a = r.f[spec.name]
        g = spec.gen(r, ctx) if spec.gen else ctx.ints(-4, 4)
        for f in a.fs:
            f.fill(g)

    def mask(self, r, spec):
        """inputs outside the region the kernel may read hold NaN"""
        if spec.integer:
            return
        a = r.f[spec.name]
        for d, f in enumerate(a.fs):
            hi = list(r.hi)
            if spec.kind != 'c':
                hi[d] += 1
            for c in cells(f.lo, f.hi):
                if not spec.need(c, r.lo, hi):
                    f.a[f.idx(c)] = NAN

    def execute(self, r, lib):
        for spec in self.outs:
            if spec.init is not None or spec.pre:
                r.f[spec.name].pre = [f.copy() for f in r.f[spec.name].fs]
        keep = {s.name: [f.buf.copy() for f in r.f[s.name].fs] for s in self.ins}
        r.s0 = {k: v[0].copy() for k, v in r.s.items()}
        args = []
        for a in self.args(r):
            if isinstance(a, Arr):
                args += a.fs
            else:
                args.append(a)
        lib.call(self.subname(r.dim), *args)
        ok = True
        outnames = [s.name for s in self.outs]
        for s in self.ins:
            for f, b in zip(r.f[s.name].fs, keep[s.name]):
                ok = ok and np.array_equal(f.buf, b, equal_nan=not s.integer)
        for s in self.outs:
            for f in r.f[s.name].fs:
                ok = ok and f.guard_ok()
        r.ok = ok
        return r

    def logf(self, spec, fs, r, scale=None):
        scale = spec.scale if scale is None else scale
        if callable(scale):
            scale = scale(r)

        def one(f):
            if spec.post:
                g = f.copy()
                m = g.a == SENT
                with np.errstate(all='ignore'):
                    v = spec.post(g.a)
                g.a[...] = np.where(m, SENT, v)
                f = g
            return f.log(scale, spec.rnd)
        L = [one(f) for f in fs]
        return L[0] if spec.kind == 'c' else L

    def log(self, r):
        d = {'dim': r.dim, 'lo': r.lo, 'hi': r.hi, 'ih': r.ih, 'g': 1 if r.ok else 0}
        d['p'] = dict(r.lp)
        d['p']['z'] = 0
        d['in'] = {s.name: self.logf(s, r.f[s.name].fs, r) for s in self.ins if not s.nolog}
        d['out'] = {s.name: self.logf(s, r.f[s.name].fs, r) for s in self.outs if not s.nolog}
        d['pre'] = {s.name: self.logf(s, r.f[s.name].pre, r, s.prescale) for s in self.outs if hasattr(r.f[s.name], 'pre') and not s.nolog}
        d['pre']['z'] = 0
        if r.s:
            def es(a, sc):
                if isinstance(sc, tuple):      # (scale,): rounded
                    return [encr(x, sc[0]) for x in a]
                return [enc(x, sc) for x in a]
            d['s0'] = {k: es(r.s0[k], v[1]) for k, v in r.s.items()}
            d['s1'] = {k: es(v[0], v[1]) for k, v in r.s.items()}
        return d

    def event(self, ctx, dim, **kw):
        ctx.t.scenario()
        r = self.prepare(ctx, dim, **kw)
        self.execute(r, ctx.libs[dim])
        ctx.t.ev(self.key, **self.log(r))
        return r


def comps(arr):
    """Fortran pointers to the components of depth arrays, as separate args:
    for each side array, each component"""
    out = []
    for f in arr.fs:
        n = f.a[(Ellipsis,) + (0,) * len(f.extra)].size
        import ctypes as C
        for m in range(f.extra[-1]):
            k = int(np.prod(f.extra[:-1])) if len(f.extra) > 1 else 1
            out.append(C.c_void_p(f.buf.ctypes.data + (f.G + m * k * n) * f.buf.itemsize))
    return out


def box(r):
    return bx(r.lo, r.hi)


def ng(r, name):
    return r.f[name].ng


# ---- generators --------------------------------------------------------------
def gi(lo, hi):
    return lambda r, ctx: ctx.ints(lo, hi)


def gd(num_lo, num_hi, den):
    """k/den with k uniform"""
    return lambda r, ctx: (lambda *a: ctx.rng.randint(num_lo, num_hi) / float(den))


PYTH = {1: [(1,), (2,), (3,), (0,)], 2: [(3, 4), (4, 3), (0, 0)], 3: [(1, 2, 2), (2, 3, 6), (0, 0, 0)],
        4: [(1, 1, 1, 1), (1, 1, 3, 5), (2, 2, 2, 2), (2, 4, 5, 6), (1, 1, 7, 7)]}


def pyth(rng, n, zero=True, norm=None):
    """integer n-vector with integer norm"""
    while True:
        k = rng.choice([m for m in PYTH if m <= n])
        t = list(rng.choice(PYTH[k]))
        v = [0] * n
        for i, x in zip(rng.sample(range(n), k), t):
            v[i] = x * rng.choice([-1, 1])
        q = math.isqrt(sum(x * x for x in v))
        if norm is not None and q not in norm:
            continue
        if q or zero:
            return v


def run(ctx, keys, n2, n3, thorough=8):
    """n2 / n3 random calls of each kernel in 2D / 3D"""
    for key in keys:
        k = REG[key]
        for dim in k.dims:
            n = n2 if dim == 2 else n3
            for i in range(ctx.n(n, thorough * n)):
                k.event(ctx, dim, mx=4 if dim == 2 else (2 if i % 2 else 3))
