"""Python side of the mini-SAMRAI harnesses: worlds (hierarchy + fields), and CK: kernels-like registry entries whose
implementation is an AMPE C++ object running over a tiled patch level.  Expected values are never computed here."""
import ctypes as C, json
import numpy as np
from amk import Field, SENT, cells
from kern import K, FS, Arr, interior, NAN
import cxxbuild

_libs = {}


def build_libs(dims, harnesses, build=None):
    return cxxbuild.cxx_libs(dims, harnesses)


def lib(ctx, harness, dim):
    """loaded library or None when the harness does not build from this tree"""
    p = ctx.libs.get('%s:%d' % (harness, dim))
    if not p:
        return None
    if p not in _libs:
        l = C.CDLL(p)
        l.am_error.restype = C.c_char_p
        l.am_text.restype = C.c_char_p
        _libs[p] = l
    return _libs[p]


class CxError(Exception):
    pass


def tiling(rng, lo, hi, n=4):
    """random cut of a box into at most n boxes"""
    bs = [(list(lo), list(hi))]
    for _ in range(rng.randint(0, n - 1)):
        i = rng.randrange(len(bs))
        l, h = bs[i]
        ds = [d for d in range(len(lo)) if h[d] > l[d]]
        if not ds:
            continue
        d = rng.choice(ds)
        c = rng.randint(l[d], h[d] - 1)
        bs[i] = (l, [c if k == d else h[k] for k in range(len(h))])
        bs.append(([c + 1 if k == d else l[k] for k in range(len(l))], h))
    rng.shuffle(bs)
    return bs


def flat(boxes):
    r = []
    for l, h in boxes:
        r += list(l) + list(h)
    return r


class World:
    def __init__(self, l, dim):
        self.l, self.dim = l, dim

    def ck(self, r):
        if r < 0:
            raise CxError(self.l.am_error().decode(errors='replace'))
        return r

    def new(self, lo, hi, h, levels=None, per=None, xlo=None):
        """levels: list of (ratio, boxes); default one patch"""
        levels = levels or [([1] * self.dim, [(lo, hi)])]
        d = {'dom': list(lo) + list(hi), 'per': list(per or [1] * self.dim), 'h': [float(x) for x in h], 'xlo': [float(x) for x in (xlo or [0.] * self.dim)],
             'levels': {str(i): {'ratio': list(r), 'boxes': flat(b)} for i, (r, b) in enumerate(levels)}}
        self.ck(self.l.am_new(json.dumps(d).encode()))
        return self

    def var(self, name, kind='c', depth=1, ng=0):
        return self.ck(self.l.am_var(name.encode(), kind.encode(), depth or 1, ng))

    def _mv(self, name, f, level, dir, depth, put, ghosts, patch):
        ext = np.array(list(f.lo) + list(f.hi), dtype=np.int32)
        if f.extra:      # components in Fortran order: the first extra index varies fastest
            depth = tuple(int(i) for i in np.unravel_index(depth, f.extra, order='F')) if not isinstance(depth, tuple) else depth
        at = (Ellipsis,) + depth if f.extra else Ellipsis
        flat = int(np.ravel_multi_index(depth, f.extra, order='F')) if f.extra else depth
        b = np.array(f.a[at], dtype=np.float64, order='F')
        r = self.ck(self.l.am_move(name.encode(), level, dir, flat, C.c_void_p(ext.ctypes.data), C.c_void_p(b.ctypes.data), put, ghosts, patch))
        if not put:
            f.a[at] = b
        return r

    def put(self, name, fs, level=0, patch=-1):
        for d, f in enumerate(fs):
            for m in range(int(np.prod(f.extra)) if f.extra else 1):
                self._mv(name, f, level, d, m, 1, 1, patch)

    def get(self, name, fs, level=0, ghosts=0, patch=-1):
        bad = 0
        for d, f in enumerate(fs):
            for m in range(int(np.prod(f.extra)) if f.extra else 1):
                bad += self._mv(name, f, level, d, m, 0, ghosts, patch)
        return bad

    def fill(self, name, v):
        self.ck(self.l.am_fill(name.encode(), C.c_double(v)))

    def call(self, fn, **kw):
        self.ck(self.l.am_call(fn.encode(), json.dumps(kw).encode()))
        return self

    def res(self, name):
        n = self.l.am_result(name.encode(), None, 0)
        if n < 0:
            return None
        b = (C.c_double * max(n, 1))()
        self.l.am_result(name.encode(), b, n)
        return list(b)[:n]

    def text(self, name):
        t = self.l.am_text(name.encode())
        return None if t is None else t.decode(errors='replace')


class CK(K):
    """args(r): JSON parameters of the command; extra(r): further fields [(name, kind, depth, ng, fill)]"""
    def __init__(self, key, harness, cmd, ins, outs, args, extra=None, names=None, ev=None, per=None, inout=(), results=None, times=1, ghosts=0, before=None, **kw):
        self.harness, self.cmd, self.extra, self.names, self.evname = harness, cmd, extra, names or {}, ev or key
        self.per, self.inout, self.results, self.times = per, inout, results, times
        self.ghosts = ghosts        # 2: outputs are written beyond the patches: union of what each patch wrote
        self.before = before        # (r, world): further preparation after the fields are in place
        K.__init__(self, key, cmd, ins, outs, args, **kw)

    def execute(self, r, l):
        w = World(l, r.dim)
        r.tiles = tiling(r.rng, r.lo, r.hi)
        per = self.per(r) if self.per else [1] * r.dim
        r.err = ''
        w.new(r.lo, r.hi, r.h, [([1] * r.dim, r.tiles)], per, getattr(r, 'xlo', None))
        for spec in self.ins + self.outs:
            a = r.f[spec.name]
            n = self.names.get(spec.name, spec.name)
            w.var(n, {'c': 'c', 's': 's'}[spec.kind] if not spec.integer else {'c': 'i', 's': 'si'}[spec.kind], int(np.prod(a.depth or 1)), a.ng)
            w.fill(n, NAN if spec in self.ins and not spec.integer else SENT if not spec.integer else -77777)
            w.put(n, a.fs)
        for name, kind, depth, g, v in (self.extra(r) if self.extra else []):
            w.var(name, kind, depth, g)
            w.fill(name, v)
        for spec in self.outs:
            if spec.init is not None or spec.pre:
                r.f[spec.name].pre = [f.copy() for f in r.f[spec.name].fs]
        ok = True
        if self.before:
            self.before(r, w)
        try:
            for _ in range(self.times):
                w.call(self.cmd, **self.args(r))
        except CxError as x:
            r.err, ok = str(x), False
        for spec in self.ins:
            if spec.name in self.inout:
                continue
            fs = [f.copy() for f in r.f[spec.name].fs]
            w.get(self.names.get(spec.name, spec.name), fs, ghosts=1)
            for f, g in zip(fs, r.f[spec.name].fs):
                ok = ok and np.array_equal(f.a, g.a, equal_nan=not spec.integer)
        for spec in self.outs:
            n = self.names.get(spec.name, spec.name)
            ok = ok and w.get(n, r.f[spec.name].fs, ghosts=self.ghosts) == 0
        r.s0 = {}
        if self.results:
            r.s = self.results(r, w)
            r.s0 = {k: v[0] for k, v in r.s.items()}
        r.ok = ok
        return r

    def event(self, ctx, dim, **kw):
        l = lib(ctx, self.harness, dim)
        if l is None:
            return None
        ctx.t.scenario()
        r = self.prepare(ctx, dim, **kw)
        self.execute(r, l)
        d = self.log(r)
        if r.err:
            d['err'] = r.err[:200]
        ctx.t.ev(self.evname, **d)
        return r
