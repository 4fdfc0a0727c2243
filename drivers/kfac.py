"""scenarios for the elliptic FAC operators"""
from amk import encr
from cx import World, lib, CxError, tiling
from mlevel import ML
import numpy as np


class Nest(ML):
    """properly nested levels: between the outer side of a level and that of the next coarser one lies at least one coarser cell"""
    def __init__(self, ctx, dim, maxlev=3, ratios=(2,), small=False, lo0=None, pow2=False):
        self.l, self.ctx, self.dim, self.r = lib(ctx, 'fac', dim), ctx, dim, ctx.rng
        if self.l is None:
            return
        r = self.r
        n = [r.randint(3, 6 if dim == 2 and not small else 4 if dim == 2 else 3) for _ in range(dim)]
        self.per = [r.choice([0, 1]) for _ in range(dim)]
        if pow2:                                     # what Hypre's multigrid takes in periodic directions
            n = [(r.choice([2, 4]) if k == 4 else 2) if p else k for p, k in zip(self.per, n)]
        lo = [r.choice([0, 0, 1, 3, -1, -2, -4]) if not lo0 else 0 for _ in range(dim)]
        hi = [a + b - 1 for a, b in zip(lo, n)]
        self.q = [r.choice([1, 1, 2]) for _ in range(dim)]
        self.lo, self.hi = lo, hi
        cut = lambda a, b, q: [([x * k for x, k in zip(c, q)], [x * k + k - 1 for x, k in zip(d, q)]) for c, d in tiling(r, a, b, 3)]
        lev = [([1] * dim, tiling(r, lo, hi, 3))]
        span = lambda a, b, q: [b - a]
        # the region the next level may lie in
        area = [(lo, hi)]
        R = [1] * dim
        for k in range(r.choice([0, 1, 1, 1, 2]) if maxlev > 2 else r.choice([0, 1, 1, 1]) if maxlev > 1 else 0):
            q = [r.choice(ratios) for _ in range(dim)] if r.random() < .3 else [r.choice(ratios)] * dim
            dlo, dhi = [x * c for x, c in zip(lo, R)], [(x + 1) * c - 1 for x, c in zip(hi, R)]
            bs, new = [], []
            for a, b in area:
                if new and r.random() < .4:
                    continue
                x, y = [], []
                for d in range(dim):
                    whole = a[d] == dlo[d] and b[d] == dhi[d]
                    if whole and r.random() < .25:      # from end to end
                        x.append(a[d]); y.append(b[d]); continue
                    # stay off the ends that are not walls
                    u = a[d] + (0 if a[d] == dlo[d] and not self.per[d] else 1)
                    v = b[d] - (0 if b[d] == dhi[d] and not self.per[d] else 1)
                    if u > v:
                        break
                    s = r.randint(u, v)
                    x.append(s); y.append(min(v, s + r.randint(0, 1 if dim == 3 or k else 2)))
                if len(x) < dim:
                    continue
                new.append((x, y))
                if k == 0 and r.random() < .3:          # a second box of another extent beside it
                    d = r.randrange(dim)
                    top = dhi[d] - (1 if self.per[d] else 0)
                    if y[d] < top:
                        e = r.choice([e for e in range(dim) if e != d])
                        x2, y2 = list(x), list(y)
                        x2[d] = y[d] + 1
                        y2[d] = min(top, x2[d] + r.randint(0, 1))
                        if not (x[e] == dlo[e] and y[e] == dhi[e]):
                            x2[e] = r.randint(x[e], y[e]); y2[e] = r.randint(x2[e], y[e])
                        new.append((x2, y2))
            if not new:
                break
            for x, y in new:
                bs += cut(x, y, q)
            area = [([c * k for c, k in zip(x, q)], [c * k + k - 1 for c, k in zip(y, q)]) for x, y in new]
            lev.append((q, bs))
            R = [a * b for a, b in zip(R, q)]
            if sum(np.prod([y - x + 1 for x, y in zip(*b)]) for b in bs) > (70 if dim == 2 else 130):
                break
        self.lev = lev
        self.w = World(self.l, dim)
        self.w.new(lo, hi, [1. / x for x in self.q], lev, self.per, [r.choice([0., 1., -2.5]) for _ in range(dim)])
        self.f = {}
        self.fin = int(np.prod([k for q, _ in lev for k in q]))
        self.scale = self.fin * float(np.prod(self.q))
        K = 1
        for q, _ in lev[1:]:
            t = int(np.prod(q))
            for d in range(dim):
                K = int(np.lcm(K, (1 + q[d]) * (t // q[d])))
        self.K = K
        self.bk, self.bg = [], []
        for d in range(dim):
            for e in range(2):
                self.bk.append(0 if self.per[d] else r.choice([1, 2]))
                self.bg.append(r.randint(-3, 3))

    def field(self, name, kind='c', depth=1, ng=0, gen=None):
        """side values: the same on both sides of a periodic boundary"""
        super().field(name, kind, depth, ng, gen)
        if kind != 's' or not gen or not any(self.per):
            return
        R = [1] * self.dim
        for l in range(len(self.lev)):
            R = [a * b for a, b in zip(R, self.lev[l][0])]
            fs, seen = self.blank(name, l), {}

            def val(d, c, *k):
                c = list(c)
                for x in range(self.dim):
                    if self.per[x]:
                        c[x] = (c[x] - self.lo[x] * R[x]) % ((self.hi[x] - self.lo[x] + 1) * R[x])
                return seen.setdefault((d, tuple(c), k), gen(l, c, *(k or (0,))))
            for d, f in enumerate(fs):
                f.fill(lambda c, *k: val(d, c, *k))
            self.w.put(name, fs, l)

    def s(self):
        return {'lev': self.levels(), 'lo': self.lo, 'hi': self.hi, 'per': self.per, 'bk': self.bk, 'bg': self.bg, 'q': self.q, 'K': self.K}


def fac(ctx, dim, op):
    r = ctx.rng
    solve = op in ('solve', 'coarse')
    smooth = op == 'smooth'
    m = Nest(ctx, dim, 1 if op == 'coarse' and r.random() < .5 else 2 if smooth or solve else 3, (2,) if smooth or solve or r.random() < .6 else (1, 2, 3, 4) if dim == 2 else (1, 2, 3), solve or smooth, pow2=solve)
    if m.l is None:
        return
    if op in ('restrict_s', 'restrict_r', 'prolong', 'prolong2') and len(m.lev) < 2:
        return
    ctx.t.scenario()
    plain = op in ('restrict_s', 'restrict_r', 'prolong', 'prolong2', 'weights', 'norm')
    types = ['plain'] * 4 + ['phase', 'phasetemp', 'temp', 'conc']
    t = 'plain' if plain else r.choice(types) if op != 'smooth' else r.choice(['plain', 'plain', 'phase', 'conc'])
    if solve:
        t = r.choice(['plain', 'phase', 'temp', 'conc'])
    depth = r.choice([1, 2] if op == 'coarse' else [1, 1, 2]) if t in ('plain', 'conc') else 1
    g = lambda a, b: (lambda l, c, k: float(r.randint(a, b)))
    # the signs the solvers are used with: -div(D grad) and a positive coefficient
    neg = t != 'plain' or solve or smooth or r.random() < .5
    gu = r.choice([1, 1, 2]); gr = r.randint(0, 2)
    gx = gr if r.random() < .5 else r.randint(0, 2)
    m.field('u', depth=depth, ng=gu, gen=g(-8, 8) if not solve else (lambda l, c, k: 0.) if r.random() < .5 else g(-3, 3))
    m.field('rhs', depth=depth, ng=gu if op == 'prolong2' else gr, gen=g(-9, 9) if not solve else g(-20, 20))
    m.field('res', depth=depth, ng=gx)
    if op in ('weights', 'norm'):
        m.field('weight', ng=r.randint(0, 1))
    p = dict(type=t, depth=depth, db={'residual_tol': 1e-9, 'relative_residual_tol': -1., 'max_cycles': 300, 'coarse_solver_tolerance': 1e-12, 'coarse_solver_max_iterations': 200})
    if r.random() < .3 and not solve:
        p['db'] = {}
    ins = {'u': (1, False, True), 'rhs': (1, False, True)}
    e = dict(type=t, depth=depth, mv=0, m0=1, gamma=1, eps=1, well=0, wellf='d', w=1, cc=[0] * depth, cv=[0] * depth, dc=[1] * depth, dv=[0] * depth, ln=1, own=1, s=1)
    sg = -1 if neg else 1
    if t in ('plain', 'temp'):
        e['dc'] = [sg * r.randint(1, 3) for _ in range(depth)]
        e['cc'] = [r.randint(1, 5) if neg else -r.randint(0, 5) for _ in range(depth)]
        if t == 'plain' and r.random() < .7:
            e['dv'] = [int(r.random() < .6) for _ in range(depth)]
            e['cv'] = [int(r.random() < .6) for _ in range(depth)]
        if not e['cc'][0] and smooth:
            e['cc'][0] = -1
    if t in ('phase', 'phasetemp', 'conc'):
        e['gamma'] = r.randint(1, 2)
        e['eps'] = r.choice([1, 1, 2])
        e['wellf'] = r.choice('ds')
        e['well'] = r.choice([0, 2, 4]) if not solve else r.choice([0, 2]) if e['wellf'] == 's' else 0
    if t == 'conc':
        e['dv'] = [1] * depth; e['cc'] = [1] * depth
    e['mv'] = 1 if t in ('phase', 'phasetemp') or t == 'plain' and r.random() < .6 else 0
    e['m0'] = r.randint(1, 3)
    if t == 'phasetemp' and smooth:
        e['well'] = 2
    if e['mv']:
        m.field('m', ng=r.randint(1, 2), gen=g(1, 2))
        ins['m'] = (1,)
    if t in ('phase', 'phasetemp'):
        m.field('phi', ng=r.randint(0, 2), gen=lambda l, c, k: r.randint(0, 4) / 4.)
        ins['phi'] = (4,)
    cn, dn = [''] * depth, [''] * depth
    for k in range(depth):
        if e['cv'][k]:
            cn[k] = 'c%d' % (k + 1)
            m.field(cn[k], ng=0 if solve else r.randint(0, 1), gen=g(1, 5) if neg else g(-5, -1)); ins[cn[k]] = (1,)
        elif e['cc'][k] == 0 and t == 'plain' and r.random() < .5:
            cn[k] = 'zero'
        if e['dv'][k]:
            dn[k] = 'd%d' % (k + 1)
            m.field(dn[k], 's', ng=r.randint(0, 1) if t != 'conc' else 0, gen=(g(1, 3) if t == 'conc' or not neg else g(-3, -1))); ins[dn[k]] = (1,)
    p.update(c=cn, d=dn, cc=[float(x) for x in e['cc']], dc=[float(x) for x in e['dc']], gamma=float(e['gamma']), eps=float(e['eps']), well=e['well'] / 4., wellf={'d': 'double', 's': 'single'}[e['wellf']])
    if not e['mv']:
        p['m0'] = float(e['m0'])
    p.update(bck=m.bk, bcg=[float(x) for x in m.bg])
    K = m.K
    try:
        if op == 'residual':
            e['w'] = r.choice([0, 1])
            i = snap(m, ins)
            m.w.call('fac', op='residual', hom=1 - e['w'], **p)
            log(m, 'facresidual', i, {'res': (K, True, True)}, e)
        elif op == 'rhs':
            i = snap(m, ins)
            m.w.call('fac', op='rhs', **p)
            log(m, 'facrhs', i, {'res': (K, True, True)}, e)
        elif op == 'smooth':
            e['ln'] = r.randrange(len(m.lev)) + 1
            e['s'] = S = 256
            i = snap(m, ins)
            o = {}
            m.w.call('fac', op='smooth', ln=e['ln'] - 1, n=1, **p)
            o['u'], bad = m.log('u', S, True, True)
            m.w.call('fac', op='smooth', ln=e['ln'] - 1, n=1, **p)
            o['again'], _ = m.log('u', S, True, True)
            for l in range(len(m.lev)):
                m.w.put('u', m.first[l], l)
            m.w.call('fac', op='smooth', ln=e['ln'] - 1, n=2, **p)
            o['twice'], _ = m.log('u', S, True, True)
            log(m, 'facsmooth', i, {}, e, o, bad)
        elif op in ('restrict_s', 'restrict_r'):
            e['ln'] = r.randrange(len(m.lev) - 1) + 1
            ra = m.lev[e['ln']][0]
            i = snap(m, ins)
            if op == 'restrict_r':
                i['u'] = i['rhs']
                for l in range(len(m.lev)):
                    m.w.put('res', m.get('rhs', l)[0], l)
            m.w.call('fac', op=op, ln=e['ln'] - 1, **p)
            o, bad = m.log('u' if op == 'restrict_s' else 'res', int(np.prod(ra)), True, True)
            log(m, 'facrestrict', i, {}, e, {'u': o}, bad)
        elif op in ('prolong', 'prolong2'):
            e['ln'] = r.randrange(1, len(m.lev)) + 1
            e['own'] = int(op == 'prolong')
            i = snap(m, ins)
            m.w.call('fac', op=op, ln=e['ln'] - 1, **p)
            log(m, 'facprolong', i, {'u': (1, False, True)}, e)
        elif op == 'weights':
            i = snap(m, ins)
            m.w.call('fac', op=op, **p)
            log(m, 'facweights', i, {'weight': (m.scale, True)}, e)
        elif op == 'norm':
            i = snap(m, ins)
            for l in range(len(m.lev)):
                m.w.put('res', m.get('rhs', l)[0], l)
            m.w.call('fac', op=op, **p)
            log(m, 'facnorm', i, {}, e, {}, 0, {'norm2': [encr(m.w.res('norm')[0] ** 2, 64)]})
        elif op == 'solve':
            e['s'] = 256
            i = snap(m, ins)
            m.w.call('fac', op='solve', **p)
            log(m, 'facsolve', i, {'u': (256, True, True)}, e, None, 0, {'converged': [int(m.w.res('converged')[0])]})
        elif op == 'coarse':
            e['s'] = 256
            p['db'] = dict(p['db'], coarse_solver_tolerance=1e-8, hypre_solver={'max_iterations': 100})
            e['w'] = 0
            if r.random() < .3:
                p['db'] = dict(p['db'], coarse_solver_choice='redblack', coarse_solver_max_iterations=2000)
            m.lev_all = m.lev
            i = snap(m, ins)
            m.w.call('fac', op='coarse', **p)
            o, bad = m.log('u', 256, True, True)
            m.lev = m.lev[:1]
            e['own'] = 0
            log(m, 'facsolve', i, {}, e, {'u': o}, bad, {'converged': [int(m.w.res('ret')[0] == 0)]})
    except CxError as x:
        if not str(x).startswith('missing'):
            ctx.t.ev('facerror', what=(op + ': ' + str(x))[:200])


def snap(m, ins):
    m.first = [m.get('u', l)[0] for l in range(len(m.lev))]
    return {k: m.log(k, *v)[0] for k, v in ins.items()}


def log(m, kind, i, outs, p, out=None, bad=0, res=None):
    o = dict(out or {})
    for k, v in outs.items():
        o[k], b = m.log(k, *v)
        bad += b
    m.ctx.t.ev(kind, s=m.s(), p=p, g=0 if bad else 1, out=dict(o, z=0), res=dict(res or {}, z=0), **{'in': dict(i, z=0)})
