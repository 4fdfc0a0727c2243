"""the whole model (QuatModel and everything below it), built from input databases on planned levels"""
import json, os, shutil, tempfile
import numpy as np
from scipy.io import netcdf_file
from amk import Field, SENT, encr
from cx import World, lib, CxError, tiling, flat

I = {'sigma': .1, 'delta': .045}
P1 = {'phi_mobility': 2., 'epsilon_phi': 1., 'phi_well_scale': 1., 'molar_volume': 1.e-5}
OR = {'H_parameter': .5, 'epsilon_orient': .5, 'orient_mobility': 1.}
LIN = {'Temperature': {'type': 'scalar', 'temperature': 900., 'meltingT': 1000., 'latent_heat': 20.}, 'FreeEnergyModel': {'type': 'linear'}}


def quad(r, **kw):
    c = {'model': 'quadratic', 'diffusion_type': 'temperature_dependent', 'molar_volume_solid_A': 1.e-6, 'molar_volume_liquid': 1.e-6,
         'D_solid': r.choice([.5, 1.]), 'D_liquid': r.choice([1., 2.]),
         'Quadratic': {'A_liquid': 4., 'A_solid': r.choice([2., 4.]), 'Ceq_liquid': .25, 'Ceq_solid': .625, 'm_liquid': 0., 'm_solid': 0., 'T_ref': 1000.}}
    c.update(kw)
    return c


class Cfg:
    def __init__(self, name, mp, fields, rates, equiv=True, cons=True, bc=('Phase',), init=None):
        self.name, self.mp, self.fields, self.rates, self.equiv, self.cons, self.bc = name, mp, fields, rates, equiv, cons, bc


def cfg(r, dim, name):
    two = dim == 2
    if name == 'ch':
        return Cfg(name, {'temperature0': 1000., 'ConcentrationModel': dict(diffusion_type='mobility', model='cahn_hilliard', rhs_form='cahn_hilliard', mobility=r.choice([1., 4.]), CahnHilliard=dict(ca=.25, cb=.75, well_scale=2., kappa=1.))},
                   {'conc': 1, 'temperature': 1}, ['conc'], bc=('Conc',))
    if name in ('ebs', 'kks'):
        c = quad(r, rhs_form=name)
        if name == 'ebs':
            c['ebs_stencil'] = r.choice(['regular', 'order4'] + (['isotropic'] if two else []))
        return Cfg(name, dict(P1, temperature=r.choice([800., 1000.]), ConcentrationModel=c, phi_interp_func_type=r.choice(['pbg', 'hbsm', 'lin']), avg_func_type='arithmetic'), {'phase': 1, 'conc': 1}, ['phase', 'conc'], bc=('Phase', 'Conc'))
    if name == 'multi':
        n = r.choice([2, 3])
        mp = dict(P1, norderp=n, temperature=1000., conc_interp_func_type='lin', ConcentrationModel=quad(r, rhs_form='ebs'))
        if n == 3 and r.random() < .5:
            mp['norderp_A'] = 2
        return Cfg(name, mp, {'phase': n, 'conc': 1}, ['phase', 'conc'], bc=('Phase', 'Conc'))
    if name == 'wang':
        n = r.choice([2, 3])
        return Cfg(name, dict(P1, norderp=n, temperature=1000., ConcentrationModel=dict(model='wang_sintering', diffusion_type='temperature_dependent', D_solid=1., D_liquid=2., WangSintering={'A': 4., 'B': 1., 'beta': .5})), {'phase': n, 'conc': 1}, ['phase', 'conc'], bc=('Phase', 'Conc'))
    if name == 'lin':
        mp = dict(P1, **LIN)
        return Cfg(name, mp, {'phase': 1}, ['phase'])
    if name == 'grains':
        n = r.choice([2, 3])
        return Cfg(name, dict(P1, norderp=n, temperature=1000.), {'phase': n}, ['phase'])
    if name == 'three':
        return Cfg(name, dict(P1, three_phases=True, temperature=1000.), {'phase': 3}, ['phase'])
    if name == 'orient':
        mp = dict(P1, **OR)
        mp.update(LIN)
        return Cfg(name, mp, {'phase': 1, 'quat': 4}, ['phase', 'quat'], bc=('Phase', 'Quat'))
    if name == 'alloy':
        mp = dict(P1, temperature=1000., conc_interp_func_type='lin', ConcentrationModel=quad(r, rhs_form='ebs'), **OR)
        return Cfg(name, mp, {'phase': 1, 'quat': 4, 'conc': 1}, ['phase', 'quat', 'conc'], bc=('Phase', 'Quat', 'Conc'))
    if name == 'aniso':
        mp = dict(P1, epsilon_anisotropy=.0625, **OR)
        mp.update(LIN)
        return Cfg(name, mp, {'phase': 1, 'quat': 4}, ['phase', 'quat'], equiv=False, bc=('Phase', 'Quat'))
    if name == 'heat':
        mp = dict(P1, FreeEnergyModel={'type': 'linear'},
                  Temperature={'type': 'heat', 'equation_type': 'unsteady', 'meltingT': 1000., 'latent_heat': 2.e4, 'cp': {'SpeciesA': {'a': 30.}}, 'thermal_diffusivity': 1.})
        return Cfg(name, mp, {'phase': 1, 'temperature': 1}, ['phase', 'temperature'], bc=('Phase', 'Temperature'))
    raise KeyError(name)


ALL = ['ch', 'ebs', 'kks', 'multi', 'wang', 'lin', 'grains', 'three', 'orient', 'alloy', 'aniso', 'heat']
CONS = ['ch', 'ebs', 'kks', 'multi', 'wang', 'alloy']
# the smoothed temperature of the 'heat' driving force weighs its neighbours by the dimension
SLAB = [x for x in ALL if x not in ('aniso', 'heat')]


FRESH = {'fresh': float('nan'), 'ifresh': 1}


class Dir:
    def __init__(self, ctx):
        self.base = os.path.dirname(os.path.abspath(ctx.t.f.name))

    def __enter__(self):
        self.d = tempfile.mkdtemp(prefix='sys', dir=self.base)
        self.o = os.getcwd()
        os.chdir(self.d)
        return self

    def __exit__(self, *a):
        os.chdir(self.o)
        shutil.rmtree(self.d, ignore_errors=True)


class Sys:
    """levels: [(ratio to the next coarser level, boxes)]"""
    def __init__(self, l, dim, cf, n, h, per, levels, extra=None, **kw):
        self.l, self.dim, self.cf, self.n, self.h, self.per, self.lev = l, dim, cf, n, h, per, levels
        mp = json.loads(json.dumps(cf.mp))
        if not all(per):
            mp['BoundaryConditions'] = {b: {'boundary_%d' % i: ['slope', '0'] for i in range(2 * dim)} for b in cf.bc}
        db = {'model_type': 'Quat', 'max_timesteps': 1, 'end_time': 1., 'TimerManager': {},
              'Geometry': {'coarsest_level_resolution': list(n), 'x_lo': [0.] * dim, 'x_up': [float(a * b) for a, b in zip(n, h)], 'periodic_dimension': list(per)},
              'Integrator': {'atol': 1e-4, 'use_preconditioner': False}, 'InitialConditions': dict({'filename': 'init.nc'}, **({'init_t': 1000.} if cf.name == 'ch' else {})), 'ModelParameters': mp}
        amr = max(len(levels), kw.pop('maxlev', 1))
        if amr > 1:
            db['Amr'] = {'enabled': True, 'GriddingAlgorithm': {'max_levels': amr}, 'StandardTagAndInitialize': {}, 'TaggingCriteria': {}}
        db.update(extra or {})
        self.init()
        self.w = World(l, dim)
        self.w.call('sys_new', levels={str(i): {'ratio': list(q), 'boxes': flat(b)} for i, (q, b) in enumerate(levels)}, db=json.dumps(db), qlen=cf.fields.get('quat', 4), **dict(FRESH, **kw))

    def regrid(self, levels):
        self.lev = levels
        self.w.call('sys_regrid', levels={str(i): {'ratio': list(q), 'boxes': flat(b)} for i, (q, b) in enumerate(levels)}, t=self.tick())

    def init(self):
        f = netcdf_file('init.nc', 'w')
        s = ([1] if self.dim == 2 else []) + list(reversed(self.n))
        for k, v in zip(('z', 'y', 'x'), s):
            f.createDimension(k, v)
        q = self.cf.fields.get('quat', 0)
        if q:
            f.createDimension('qlen', q)
        v = {'temperature': 1000.}
        for k, a in (('phase', .5), ('concentration', .5)):
            v[k] = a
            for i in range(4):
                v[k + str(i)] = a
        for i in range(q):
            v['quat%d' % (i + 1)] = .5
        for k, a in v.items():
            x = f.createVariable(k, 'd', ('z', 'y', 'x'))
            x[:] = np.full(s, a)
        f.close()

    def bound(self, l):
        b = self.lev[l][1]
        return [min(x[0][d] for x in b) for d in range(self.dim)], [max(x[1][d] for x in b) for d in range(self.dim)]

    def ratio(self, l):
        return [int(np.prod([self.lev[k][0][d] for k in range(l + 1)])) for d in range(self.dim)]

    def put(self, name, l, f):
        self.w.put(name, [f], l)

    def get(self, name, l, depth, sides=False):
        lo, hi = self.bound(l)
        fs = [Field(lo, hi, 0, d, depth) for d in (range(self.dim) if sides else [None])]
        self.w.get(name, fs, l)
        return fs

    def cells(self, l):
        return [c for a, b in self.lev[l][1] for c in np.ndindex(*[y - x + 1 for x, y in zip(a, b)]) for c in [tuple(i + x for i, x in zip(c, a))]]

    now = [0.]

    def tick(self):
        """another time at each evaluation: intermediate results may be kept for a given time"""
        Sys.now[0] += .0625
        return Sys.now[0]

    def rates(self, **kw):
        self.w.call('sys_rhs', t=self.tick(), **kw)
        return {k: [self.get('rate_' + k, l, self.cf.fields[k])[0] for l in range(len(self.lev))] for k in self.cf.rates}

    def energy(self):
        self.w.call('sys_energy', t=self.tick())
        return self.w.res('energy') + self.w.res('frac') + self.w.res('conc')

    def close(self):
        self.w.call('sys_del')


def levels(r, dim, n, maxlev=2, whole=False, ratios=(2,)):
    """random nested levels of a domain of n cells; the union of boxes of a refined level is a box"""
    lev = [([1] * dim, tiling(r, [0] * dim, [x - 1 for x in n], 4))]
    if maxlev > 1:
        q = [r.choice(ratios)] * dim
        if whole:
            lo, hi = [0] * dim, [x - 1 for x in n]
        else:
            lo = [r.randint(0, x - 3) for x in n]
            hi = [min(x - 1, a + r.randint(1, 2)) for x, a in zip(n, lo)]
        lev.append((q, aligned(r, [a * k for a, k in zip(lo, q)], [a * k + k - 1 for a, k in zip(hi, q)], q)))
    return lev


def aligned(r, lo, hi, q):
    """random tiling whose cuts lie on coarse cells"""
    return [([a * k for a, k in zip(x, q)], [a * k + k - 1 for a, k in zip(y, q)]) for x, y in tiling(r, [a // k for a, k in zip(lo, q)], [a // k for a, k in zip(hi, q)], 4)]


def retile(r, lev):
    out = []
    for q, b in lev:
        d = len(q)
        out.append((q, aligned(r, [min(x[0][k] for x in b) for k in range(d)], [max(x[1][k] for x in b) for k in range(d)], q)))
    return out


def values(r, cf, cells):
    """random contents: {name: {cell: [components]}}"""
    v = {}
    for k, n in cf.fields.items():
        v[k] = {}
        for c in cells:
            if k == 'quat':
                x = [r.randint(-8, 8) for _ in range(n)]
                while not any(x):
                    x = [r.randint(-8, 8) for _ in range(n)]
                s = sum(a * a for a in x) ** .5
                v[k][c] = [a / s for a in x]
            elif k == 'temperature':
                v[k][c] = [960. + r.randint(0, 64)]
            elif k == 'conc':
                v[k][c] = [r.randint(2, 14) / 16. for _ in range(n)]
            elif n == 1:
                v[k][c] = [r.choice([0, 1, 2, 4, 6, 8, 8]) / 8.]
            else:
                x = [r.randint(0, 4) for _ in range(n)]
                x[r.randrange(n)] += 1
                v[k][c] = [a / float(sum(x)) for a in x]
    return v


def load(s, l, v, fmap=lambda c: c):
    """v: {name: {cell: components}}; fmap: cell of this world -> cell of v"""
    for k, n in s.cf.fields.items():
        lo, hi = s.bound(l)
        f = Field(lo, hi, 0, None, n)
        for c in s.cells(l):
            for m in range(n):
                f.set(c, v[k][fmap(c)][m], m)
        s.put(k, l, f)


def unit(*fs, top=2 ** 26):
    m = max([float(np.nanmax(np.abs(f.a))) for f in fs if f.a.size and np.isfinite(f.a).any()] or [0.])
    return 2. ** np.floor(np.log2(top / m)) if m > 0 else 1.


def setup(r, dim, cf, maxlev, whole=False):
    n = r.choice([[6, 5], [4, 7], [8, 4]]) if dim == 2 else r.choice([[4, 3, 4], [3, 4, 5], [4, 4, 3]])
    h = [r.choice([.5, 1.])] * dim if dim == 2 and cf.mp.get('ConcentrationModel', {}).get('ebs_stencil') == 'isotropic' else [r.choice([.5, 1.]) for _ in range(dim)]
    per = [1] * dim if r.random() < .5 or cf.name in ('ch', 'wang') or cf.mp.get('ConcentrationModel', {}).get('ebs_stencil') == 'order4' else [r.randint(0, 1) for _ in range(dim)]
    return n, h, per, levels(r, dim, n, maxlev, whole)


def err(ctx, dim, name, x):
    if str(x).startswith('missing'):
        return
    ctx.t.ev('syserror', dim=dim, cfg=name, what=str(x)[:200])


def blank(s, l, fs, names, depth):
    if l + 1 == len(s.lev):
        return
    lo, hi = s.bound(l + 1)
    q = s.lev[l + 1][0]
    for c in s.cells(l):
        if all(a // k <= x <= b // k for x, a, b, k in zip(c, lo, hi, q)):
            for f, k in zip(fs, names):
                for m in range(depth[k]):
                    f.set(c, 0., m)


def same(ctx, dim, name, mode):
    """two worlds that must agree: another tiling, a symmetry of the square or cube and a translation, or a grid refined everywhere"""
    l = lib(ctx, 'sys', dim)
    if l is None:
        return
    r = ctx.rng
    ctx.t.scenario()
    cf = cfg(r, dim, name)
    if mode == 'equiv' and not cf.equiv:
        return
    with Dir(ctx):
        try:
            n, h, per, lev = setup(r, dim, cf, 2 if mode == 'whole' or (mode in ('tile', 'regrid') and r.random() < .6 + .2 * (mode == 'regrid')) or (mode == 'equiv' and r.random() < .4) else 1, mode == 'whole')
            perm, refl, sh = list(range(dim)), [0] * dim, [0] * dim
            lb, nb, hb, pb = retile(r, lev), n, h, per
            if mode == 'equiv':
                r.shuffle(perm)
                refl = [r.randint(0, 1) for _ in range(dim)]
                if len(lev) == 1:
                    sh = [r.randint(0, n[p] - 1) if per[p] and not refl[d] else 0 for d, p in enumerate(perm)]
                nb, hb, pb = [n[p] for p in perm], [h[p] for p in perm], [per[p] for p in perm]
            elif mode == 'whole':
                nb, hb = [2 * x for x in n], [x / 2. for x in h]
                lb = [([1] * dim, lb[1][1])]
            A = Sys(l, dim, cf, n, h, per, lev)
            fw = lambda lv: (lambda c: tuple((n[p] * A.ratio(lv)[p] - 1 - c[p]) if refl[d] else (c[p] + sh[d]) % (n[p] * A.ratio(lv)[p]) for d, p in enumerate(perm)))
            vals = {}
            for lv in range(len(lev)):
                vals[lv] = values(r, cf, A.cells(lv))
                load(A, lv, vals[lv])
            if mode == 'equiv':
                lb = []
                for lv, (q, bs) in enumerate(lev):
                    m = fw(lv)
                    lo, hi = A.bound(lv)
                    if any(sh):
                        lo, hi = [0] * dim, [x - 1 for x in nb]
                    else:
                        a, b = m(tuple(lo)), m(tuple(hi))
                        lo, hi = [min(x, y) for x, y in zip(a, b)], [max(x, y) for x, y in zip(a, b)]
                    qq = [q[p] for p in perm]
                    lb.append((qq, aligned(r, lo, hi, qq)))
            ra, ea = A.rates(), A.energy()
            A.close()
            if mode == 'regrid':    # other levels before these
                l0 = levels(r, dim, n, r.choice([1, 2, 2][:len(lev) + 1 if len(lev) > 1 else 1]))
                l0[0] = lb[0]
                B = Sys(l, dim, cf, nb, hb, pb, l0, maxlev=2)
                for lv in range(len(l0)):
                    load(B, lv, values(r, cf, B.cells(lv)))
                B.rates()
                if r.random() < .5:
                    B.energy()
                B.regrid(lb)
            else:
                B = Sys(l, dim, cf, nb, hb, pb, lb)
            pairs = [(1, 0)] if mode == 'whole' else [(i, i) for i in range(len(lev))]
            for i, j in pairs:
                m = fw(i)
                inv = {m(c): c for c in A.cells(i)}
                load(B, j, vals[i], lambda c: inv[c])
            rb, eb = B.rates(), B.energy()
            B.close()
        except CxError as x:
            return err(ctx, dim, name, x)
    out = []
    for i, j in pairs:
        # cells covered by a finer level carry no rates of their own
        if mode != 'whole':
            blank(A, i, [ra[k][i] for k in cf.rates], cf.rates, cf.fields)
            blank(B, j, [rb[k][j] for k in cf.rates], cf.rates, cf.fields)
    for k in cf.rates:
        for i, j in pairs:
            u = unit(ra[k][i], rb[k][j])
            out.append({'what': k, 'n': [a * b for a, b in zip(n, A.ratio(i))], 'sh': sh, 'a': ra[k][i].log(u, True), 'b': rb[k][j].log(u, True)})
    u = [2. ** np.floor(np.log2(2 ** 26 / max(abs(a), abs(b)))) if max(abs(a), abs(b)) > 1e-12 else 1. for a, b in zip(ea, eb)]
    ctx.t.ev('same', dim=dim, per=per, la=str(lev), lb=str(lb), cfg=name, mode=mode, perm=[p + 1 for p in perm], refl=refl, pairs=out, ea=[encr(a, s) for a, s in zip(ea, u)], eb=[encr(a, s) for a, s in zip(eb, u)])


def slab(ctx, name):
    """a three-dimensional model of fields that do not change along the third axis"""
    l2, l3 = lib(ctx, 'sys', 2), lib(ctx, 'sys', 3)
    if l2 is None or l3 is None:
        return
    r = ctx.rng
    ctx.t.scenario()
    cf = cfg(r, 3, name)
    with Dir(ctx):
        try:
            n, h, per, lev = setup(r, 2, cf, r.choice([1, 2]))
            A = Sys(l2, 2, cf, n, h, per, lev)
            vals = {}
            for lv in range(len(lev)):
                vals[lv] = values(r, cf, A.cells(lv))
                load(A, lv, vals[lv])
            ra = A.rates()
            A.close()
            nz, lb = r.choice([3, 4]), []
            for lv, (q, bs) in enumerate(lev):
                lo, hi = A.bound(lv)
                q = list(q) + [r.choice([2, q[0]]) if lv else 1]
                lb.append((q, aligned(r, lo + [0], hi + [nz * q[2] - 1], q)))
            B = Sys(l3, 3, cf, list(n) + [nz], list(h) + [r.choice([.5, 1., 2.])], list(per) + [1], lb)
            for lv in range(len(lev)):
                load(B, lv, vals[lv], lambda c: c[:2])
            rb = B.rates()
            B.close()
        except CxError as x:
            return err(ctx, 3, name, x)
    for i in range(len(lev)):
        blank(A, i, [ra[k][i] for k in cf.rates], cf.rates, cf.fields)
        blank(B, i, [rb[k][i] for k in cf.rates], cf.rates, cf.fields)
    out = []
    for k in cf.rates:
        for i in range(len(lev)):
            u = unit(ra[k][i], rb[k][i])
            out.append({'what': k, 'a': ra[k][i].log(u, True), 'b': rb[k][i].log(u, True)})
    ctx.t.ev('slab', dim=3, cfg=name, per=per, la=str(lev), lb=str(lb), pairs=out)


def closed(ctx, dim, name):
    """rates and composite fluxes of the composition on a periodic or walled domain, with or without refined levels"""
    l = lib(ctx, 'sys', dim)
    if l is None:
        return
    r = ctx.rng
    ctx.t.scenario()
    cf = cfg(r, dim, name)
    with Dir(ctx):
        try:
            n, h, per, lev = setup(r, dim, cf, r.choice([1, 2, 2]))
            A = Sys(l, dim, cf, n, h, per, lev)
            for lv in range(len(lev)):
                load(A, lv, values(r, cf, A.cells(lv)))
            ra = A.rates()['conc']
            nc = cf.fields['conc']
            fx = [A.get('flux_conc', lv, nc, True) for lv in range(len(lev))]
            A.close()
        except CxError as x:
            return err(ctx, dim, name, x)
    u = unit(*(ra + [f for x in fx for f in x]), top=2 ** 19)
    lg = lambda f: f.log(u, True)
    hi = [[int(round(A.ratio(lv)[d] / h[d])) for d in range(dim)] for lv in range(len(lev))]
    ctx.t.ev('closed', dim=dim, cfg=name, mob=int(cf.mp['ConcentrationModel'].get('mobility', 1)), lev=[{'r': q, 'boxes': [{'lo': a, 'hi': b} for a, b in bs]} for q, bs in lev], n=n, per=per, hinv=hi,
             rate=[lg(f) for f in ra], flux=[[lg(f) for f in x] for x in fx])
