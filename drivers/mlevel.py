"""worlds of several nested levels"""
from amk import Field, SENT, enc, encr
from cx import World, lib, CxError, tiling, flat
from kern import NAN
import numpy as np


class ML:
    def __init__(self, ctx, harness, dim, maxlev=3, lo0=False, xlo=None, ratios=(1, 2, 3), whole=False, per=1):
        self.l = lib(ctx, harness, dim)
        self.ctx, self.dim, self.r = ctx, dim, ctx.rng
        if self.l is None:
            return
        r = self.r
        n = [r.randint(2, 4 if dim == 2 else 2) for _ in range(dim)]
        self.n = n
        lo = [0 if lo0 else r.randint(-3, 3) for _ in range(dim)]
        hi = [a + b - 1 for a, b in zip(lo, n)]
        self.h = [r.choice([.5, 1., 2.]) for _ in range(dim)]
        lev = [([1] * dim, tiling(r, lo, hi, 3))]
        for _ in range(r.choice([0, 1, 1, 2]) if maxlev > 2 else r.choice([0, 1, 1])):
            while True:
                q = [r.choice(ratios) for _ in range(dim)]
                if any(x > 1 for x in q):
                    break
            bs = []
            for l, h in lev[-1][1]:
                if r.random() < .5 and bs:
                    continue
                a = [r.randint(x, y) for x, y in zip(l, h)]
                b = [min(y, x + r.randint(0, 1)) for x, y in zip(a, h)]
                if whole:    # patches made of whole coarse cells
                    bs += [([x * k for x, k in zip(l2, q)], [x * k + k - 1 for x, k in zip(h2, q)]) for l2, h2 in tiling(r, a, b, 3)]
                    continue
                bs += tiling(r, [x * k for x, k in zip(a, q)], [x * k + k - 1 for x, k in zip(b, q)], 3)
            lev.append((q, bs))
            if np.prod([k for q, _ in lev for k in q]) > 40:
                break
        self.lev = lev
        self.w = World(self.l, dim)
        self.w.new(lo, hi, self.h, lev, [per] * dim, xlo or [r.choice([0., 1., -2.5]) for _ in range(dim)])
        self.f = {}
        self.fin = int(np.prod([k for q, _ in lev for k in q]))
        self.scale = self.fin / float(np.prod(self.h))   # values per finest cell volume

    def bound(self, l):
        b = self.lev[l][1]
        return [min(x[0][d] for x in b) for d in range(self.dim)], [max(x[1][d] for x in b) for d in range(self.dim)]

    def field(self, name, kind='c', depth=1, ng=0, gen=None):
        """gen(level, cell, component); none: output"""
        self.w.var(name, kind, depth, ng)
        self.w.fill(name, NAN if gen else SENT)
        self.f[name] = (kind, depth)
        for l in range(len(self.lev)):
            if gen:
                fs = self.blank(name, l)
                for f in fs:
                    f.fill(lambda c, *k: gen(l, c, *(k or (0,))))
                self.w.put(name, fs, l)

    def blank(self, name, l):
        kind, depth = self.f[name]
        lo, hi = self.bound(l)
        return [Field(lo, hi, 0, d, depth if depth > 1 else None) for d in ([None] if kind == 'c' else range(self.dim))]

    def get(self, name, l):
        fs = self.blank(name, l)
        bad = self.w.get(name, fs, l)
        return fs, bad

    def log(self, name, scale=1, rnd=False, lst=False):
        """one entry per level; lst: components as a list even when there is one; sides: per direction, then component"""
        res, bad = [], 0
        for l in range(len(self.lev)):
            fs, b = self.get(name, l)
            bad += b
            x = [f.log(scale, rnd) for f in fs]
            if lst and self.f[name][1] == 1:
                x = [[v] for v in x]
            res.append(x[0] if self.f[name][0] == 'c' else x)
        return res, bad

    def levels(self):
        return [{'r': q, 'boxes': [{'lo': a, 'hi': b} for a, b in bs]} for q, bs in self.lev]

    def event(self, kind, ins, outs, p, res=None):
        """ins/outs: {name: (scale, rounded, as list)}"""
        bad, i, o = 0, {}, {}
        for k, v in ins.items():
            i[k], _ = self.log(k, *v)
        for k, v in outs.items():
            o[k], b = self.log(k, *v)
            bad += b
        p = dict(p, z=0)
        self.ctx.t.ev(kind, dim=self.dim, lev=self.levels(), p=p, g=0 if bad else 1, out=dict(o, z=0), res=dict(res or {}, z=0), **{'in': dict(i, z=0)})
