"""composition: diffusion coefficients, fluxes, boundary fluxes, anti-trapping, run through the classes the project's factories build"""
import math
from cx import *
from kern import gi, star, boxn
from krhs import gphi
from kmob import R

LN2 = math.log(2.)
EN = {'p': 'pbg', 'h': 'harmonic', 'l': 'linear'}
AV = {'a': 'arithmetic', 'h': 'harmonic'}


def base(r, conc, n=1, three=False, na=None, **kw):
    m = {'norderp': n, 'epsilon_phi': 1., 'phi_well_scale': 1., 'phi_mobility': 1., 'Temperature': {'type': 'scalar'}, 'ConcentrationModel': conc}
    if three:
        m['three_phases'] = True
    if na is not None:
        m['norderp_A'] = na
    m.update(kw)
    return m


def cp(r, model, op, **kw):
    r.cp = dict({'model': model, 'op': op}, **kw)


def args(r):
    return r.cp


def phases(r, kinds):
    """arrangement of the order parameters: r.kind, r.nphi, model keywords; logged: ph (components of each phase), one, np"""
    k = r.kind = r.rng.choice(kinds)
    r.lp['one'] = int(k == 'one')
    if k == 'one':
        r.nphi, r.mk, r.lp['ph'] = 1, {}, [[1], [1]]
    elif k == 'multi':
        r.nphi = r.rng.choice([2, 3])
        r.mk, r.lp['ph'] = {'n': r.nphi}, [[r.nphi], list(range(1, r.nphi))]
    elif k == 'three':
        r.nphi, r.mk, r.lp['ph'] = 3, {'n': 3, 'three': True}, [[1], [2], [3]]
    else:
        na, nb = r.rng.choice([(1, 1), (2, 1), (1, 2)])
        r.nphi = na + nb + 1
        r.mk, r.lp['ph'] = {'n': r.nphi, 'na': na}, [[r.nphi], list(range(1, na + 1)), list(range(na + 1, na + nb + 1))]
    r.lp['np'] = len(r.lp['ph'])


def lattice(r):
    """average kind and order-parameter lattice; harmonic averages are exact on it"""
    r.lp['avg'] = r.rng.choice('ah')
    r.lp['n'] = 4 if r.lp['avg'] == 'h' else r.rng.choice([2, 4])


def gp(r, ctx):
    n = r.lp['n']
    if r.lp['avg'] == 'h':
        return lambda *a: r.rng.choice([0, 0, 1, 3, 3, -1]) / 4.
    return lambda *a: r.rng.randint(-1, n + 1) / float(n)


N5 = lambda r: (2 * r.lp['n']) ** 5
NPHI = lambda r: r.nphi


def dcoef(r, three, temp):
    """bulk coefficients (with activation energies 6 j R ln 2 when temp)"""
    np_ = 3 if three else 2
    r.lp['D'] = [r.rng.randint(1, 2) for _ in range(np_)]
    r.lp['j'] = [r.rng.randint(0, 1) if temp else 0 for _ in range(np_)]
    r.lp['jm'] = max(r.lp['j'])
    c = {'D_liquid': float(r.lp['D'][0]), 'D_solid_A': float(r.lp['D'][1]), 'Q0_liquid': 6 * r.lp['j'][0] * R * LN2, 'Q0_solid_A': 6 * r.lp['j'][1] * R * LN2}
    if three:
        c['D_solid_B'] = float(r.lp['D'][2])
        c['Q0_solid_B'] = 6 * r.lp['j'][2] * R * LN2
    elif r.rng.random() < .4:
        c['D_solid'], c['Q0_solid'] = c.pop('D_solid_A'), c.pop('Q0_solid_A')
    return c


def T13(r, ctx):
    return lambda *a: r.rng.choice([1., 3.])


# ---- one equation for the whole composition -----------------------------------------------------------------------------
def kks_p(r, ctx):
    lattice(r)
    r.nphi = 1
    r.lp.update(one=1, ph=[[1], [1]], t=r.rng.choice('plh'), sh=6)
    c = dict(dcoef(r, False, True), model='quadratic')
    cp(r, base(r, c, phi_interp_func_type=EN[r.lp['t']], avg_func_type=AV[r.lp['avg']]), 'coef', mkdiff=0)


CS = lambda names: (lambda r: [(n, 'c', 1, 1, 0.) for n in names])
CK('kkscoef', 'comp', 'c_op', [FS('phi', depth=1, ng=1, need=star(1), gen=gp, scale=lambda r: r.lp['n']), FS('temp', ng=1, need=star(1), gen=T13),
                               FS('cl', ng=1, need=star(1), gen=gi(-2, 6)), FS('ca', same='cl', need=star(1), gen=gi(-2, 6))],
   [FS('pfm0', 's', fixed_ng=True, rnd=True, scale=lambda r: N5(r) * 64 ** r.lp['jm']), FS('coup', 's', fixed_ng=True, rnd=True, scale=lambda r: (2 * r.lp['n']) ** 9 * 2 / 64.)],
   args, extra=CS(['conc', 'eta', 'ecoup']), params=kks_p)


def beck_p(r, ctx):
    lattice(r)
    r.lp.update(t=r.rng.choice('plh'), D=[r.rng.randint(2, 4), r.rng.randint(0, 2)])
    r.lp['f0'] = 512
    c = {'model': 'quadratic', 'rhs_form': r.rng.choice(['u', 'Beckermann', 'beckermann']), 'D_liquid': float(r.lp['D'][0]), 'D_solid_A': float(r.lp['D'][1])}
    cp(r, base(r, c, conc_interp_func_type=EN[r.lp['t']], avg_func_type=AV[r.lp['avg']]), 'coef', mkdiff=0)


def gk(r, ctx):
    """partition coefficients: multiples of a quarter whose averages are exact"""
    if r.lp['avg'] == 'h':
        return lambda *a: r.rng.choice([1, 3, 3]) / 4.
    return lambda *a: r.rng.randint(1, 4) / 4.


def gc(r, ctx):
    if r.lp['avg'] == 'h':
        return lambda *a: r.rng.choice([0., 1., 3.])
    return ctx.ints(-3, 5)


def ktrue(r, w):
    """the model object makes the ghost values usable; until then they are not"""
    fs = [f.copy() for f in r.f['kpart'].fs]
    for f in fs:
        for c in cells(f.lo, f.hi):
            if not all(l <= x <= h for x, l, h in zip(c, r.lo, r.hi)):
                f.a[f.idx(c)] = NAN
    w.var('ktrue', 'c', 1, r.f['kpart'].ng)
    w.put('ktrue', r.f['kpart'].fs)
    w.fill('kpart', NAN)
    w.put('kpart', fs)


CK('beckcoef', 'comp', 'c_op', [FS('phi', depth=1, ng=1, need=star(1), gen=gp, scale=lambda r: r.lp['n']), FS('temp', ng=1, need=star(1), gen=T13),
                                FS('conc', ng=1, need=star(1), gen=gc), FS('kpart', ng=1, need=star(1), gen=gk, scale=4)],
   [FS('pfm0', 's', fixed_ng=True, rnd=True, scale=512), FS('coup', 's', fixed_ng=True, rnd=True, scale=1024)],
   args, extra=CS(['cl', 'ca', 'eta', 'ecoup']), params=beck_p, inout=('kpart',), before=ktrue)


# ---- coefficients of each phase ---------------------------------------------------------------------------------------------
def cdiff_p(r, ctx):
    phases(r, ['one', 'multi', 'three', 'B'])
    lattice(r)
    r.lp.update(t=r.rng.choice('pl'), depth=r.rng.choice([1, 4]))
    c = dict(dcoef(r, r.lp['np'] == 3, False), model='quadratic', nspecies=3 if r.lp['depth'] == 4 else 2)
    cp(r, base(r, c, diffusion_interp_func_type=EN[r.lp['t']], avg_func_type=AV[r.lp['avg']], **r.mk), 'diff', ncomp=int(math.sqrt(r.lp['depth'])), mkrhs=0)


PH = lambda gen, scale, need=star(1), ng=2: FS('phi', depth=NPHI, ng=ng, need=need, gen=gen, scale=scale)
NL = lambda r: r.lp['n']
DEPTH = lambda r: r.lp['depth']
CK('cdiff', 'comp', 'c_op', [PH(gp, NL), FS('temp', ng=1, need=star(1), gen=T13)], [FS('pfm0', 's', depth=DEPTH, ng=1, fixed_ng=True, scale=N5)], args,
   extra=CS(['conc', 'cl', 'ca', 'cb']), params=cdiff_p)


def ebs(r, c, g=None):
    c.update(model='quadratic', rhs_form='ebs', diffusion_type='temperature_dependent', ebs_stencil=r.rng.choice(['regular', 'isotropic', 'order4']))
    return c


def tdiff_p(g, kinds, ab=False):
    def f(r, ctx):
        phases(r, kinds)
        b = r.lp['np'] == 3
        if not ab:
            lattice(r)
            r.lp.update(t=r.rng.choice('pl'), depth=r.rng.choice([1, 4]))
            c = dcoef(r, b, True)
        else:
            r.lp.update(n=400, depth=1)
            c = abcoef(r, b, True)
            r.lp['t'], r.lp['avg'] = 'l', 'a'
        nc = int(math.sqrt(r.lp['depth']))
        r.lp.update(npre=nc, o=['dl', 'da', 'db'], pre=['pfm0', 'pfm1'], g=g)
        c.update(model='quadratic', rhs_form='ebs', diffusion_type='temperature_dependent', nspecies=nc + 1,
                 ebs_stencil=r.rng.choice(['regular', 'isotropic', 'order4']) if g else 'regular')
        cp(r, base(r, c, diffusion_interp_func_type=EN[r.lp['t']], avg_func_type=AV[r.lp['avg']], **r.mk), 'coef', ncomp=nc)
    return f


TS = lambda r: N5(r) * 64 ** r.lp['jm']


def tcalls(ev, gen, tgen, scale, ab, npre):
    keys = []
    for g in (0, 1, 2):
        q = max(g, 1)
        for nm, kinds, ds in (('2', ['one', 'multi'] if not ab else ['multi'], ['dl', 'da']), ('3', ['three', 'B'], ['dl', 'da', 'db'])):
            k = '%s%s%d' % (ev, nm, g)
            CK(k, 'comp', 'c_op', [PH(gen, NL, boxn(q), q), FS('temp', ng=q, need=boxn(q), gen=tgen)],
               [FS(x, 's', depth=DEPTH, ng=g, fixed_ng=True, rnd=True, scale=scale) for x in ds] + [FS(x, 's', fixed_ng=True, rnd=True, scale=scale) for x in npre],
               args, ev=ev, extra=CS(['conc', 'cl', 'ca', 'coefl', 'coefa'] + (['cb'] if nm == '3' else [])), params=tdiff_p(g, kinds, ab), ghosts=2)
            keys.append(k)
    return keys


# ---- diffusion along interfaces ---------------------------------------------------------------------------------------------
def g400(r, ctx):
    return lambda *a: (r.rng.choice([0, 2, 4 + 49 * r.rng.randint(0, 8), 4 + 49 * r.rng.randint(0, 4)])) / 400.


def abcoef(r, b, temp):
    r.lp['D'] = [r.rng.randint(0, 2) for _ in range(3 if b else 2)]
    c = {'D_liquid': float(r.lp['D'][0]), 'D_solid_A': float(r.lp['D'][1])}
    if b:
        c['D_solid_B'] = float(max(1, r.lp['D'][2]))
        r.lp['D'][2] = max(1, r.lp['D'][2])
    r.lp['ab'] = []
    for nm, i, j in (('LA', 2, 1), ('AA', 2, 2), ('LB', 3, 1), ('AB', 3, 2), ('BB', 3, 3)):
        if r.rng.random() < .3 or (j == 3 or i == 3) and not b:
            continue
        d, k = r.rng.randint(1, 3), r.rng.randint(0, 1) if temp else 0
        r.lp['ab'].append([i, j, d, k])
        c['D0_' + nm] = float(d)
        if k:
            c['Q0_' + nm] = 2 * k * R * LN2
    r.lp['km'] = max([u[3] for u in r.lp['ab']] + [0])
    return c


def cab_p(r, ctx):
    phases(r, ['multi', 'three', 'B'])
    r.lp['n'] = 400
    c = dict(abcoef(r, r.lp['np'] == 3, False), model='quadratic')
    cp(r, base(r, c, diffusion_interp_func_type='linear', avg_func_type='arithmetic', **r.mk), 'diff', mkrhs=0)


TDIFF = tcalls('tdiff', gp, T13, TS, False, ['pfm0', 'pfm1'])
T12 = lambda r, ctx: (lambda *a: r.rng.choice([1., 2.]))
TAB = tcalls('tab', g400, T12, lambda r: 12800 * 4 ** r.lp['km'], True, ['pfm0'])
CK('cab', 'comp', 'c_op', [PH(g400, NL, boxn(2)), FS('temp', ng=1, need=star(1), gen=T13)], [FS('pfm0', 's', ng=1, fixed_ng=True, rnd=True, scale=12800)], args,
   extra=CS(['conc', 'cl', 'ca', 'cb']), params=cab_p)


def ws_model(r, c, n):
    c.update(model='wang_sintering', WangSintering={'A': float(r.lp.get('A', 1)), 'B': float(r.lp.get('B', 1)), 'beta': float(r.lp.get('beta', 1))})
    return base(r, c, n, diffusion_interp_func_type='linear', avg_func_type='arithmetic')


def wsd_p(r, ctx):
    r.nphi = r.rng.choice([2, 3])
    d, k = r.rng.randint(0, 3), r.rng.randint(0, 2)
    r.lp.update(n=400, one=0, ph=[[], list(range(1, r.nphi + 1))], ab=[[2, 2, d, 0]], s=16 * k, D=[r.rng.randint(0, 2), r.rng.randint(0, 2)])
    cp(r, ws_model(r, {'D_liquid': float(r.lp['D'][0]), 'D_solid': float(r.lp['D'][1]), 'D0_AA': float(d), 'D0_LA': 25. * k}, r.nphi), 'diff', mkrhs=0)


CK('wsdiff', 'comp', 'c_op', [PH(g400, NL, boxn(1), 1), FS('temp', ng=1, need=star(1), gen=T13), FS('conc', ng=1, need=boxn(1), scale=400, gen=lambda r, ctx: (lambda *a: r.rng.randint(0, 20) / 20.))],
   [FS('pfm0', 's', ng=1, fixed_ng=True, rnd=True, scale=12800)], args, extra=CS(['cl', 'ca']), params=wsd_p)


def cmob_p(r, ctx):
    lattice(r)
    r.lp.update(t=r.rng.choice('pl'), nc=r.rng.choice([1, 2]))
    r.lp['depth'] = r.lp['nc'] ** 2
    c = {'model': 'quadratic', 'rhs_form': 'ebs', 'nspecies': r.lp['nc'] + 1}
    cp(r, base(r, c, diffusion_interp_func_type=EN[r.lp['t']], avg_func_type=AV[r.lp['avg']]), 'diff', mkrhs=0, ncomp=r.lp['nc'])


NC = lambda r: r.lp['nc']
CK('cmob', 'comp', 'c_op', [FS('phi', depth=1, ng=1, need=star(1), gen=gp, scale=NL), FS('temp', ng=1, need=star(1), gen=T13),
                            FS('cl', depth=NC, ng=1, need=star(1), gen=gi(0, 3)), FS('ca', depth=NC, same='cl', need=star(1), gen=gi(0, 3))],
   [FS(x, 's', depth=DEPTH, fixed_ng=True, scale=8) for x in ('coefl', 'coefa')] + [FS(x, 's', depth=DEPTH, fixed_ng=True, rnd=True, scale=lambda r: 2 * N5(r)) for x in ('dl', 'da')],
   args, extra=CS(['conc', 'pfmx']), params=cmob_p)


# ---- fluxes -----------------------------------------------------------------------------------------------------------------
def cflux_p(r, ctx):
    beck = r.rng.random() < .5
    c = {'model': 'quadratic', 'D_liquid': 1., 'D_solid_A': 1.}
    if beck:
        c['rhs_form'] = 'Beckermann'
    cp(r, base(r, c), 'flux', mkdiff=0)


CK('cflux', 'comp', 'c_op', [FS('conc', ng=1, need=star(1), gen=gi(-4, 4)), FS('phi', depth=1, ng=1, need=star(1), gen=gi(-4, 4)),
                             FS('d', 's', fixed_ng=True, gen=gi(-3, 3)), FS('coup', 's', fixed_ng=True, gen=gi(-3, 3))],
   [FS('flux', 's', fixed_ng=True)], args, names={'d': 'pfm0'}, extra=CS(['temp', 'cl', 'ca', 'eta', 'ecoup', 'kpart']), params=cflux_p)


def ebs_p(st):
    def f(r, ctx):
        r.lp.update(st=st, nc=r.rng.choice([1, 2]), b=0)
        r.lp['depth'] = r.lp['nc'] ** 2
        r.lp['per'] = r.per = [r.rng.randint(0, 1) if st == 'order4' else 1 for _ in range(r.dim)]
        c = {'model': 'quadratic', 'rhs_form': 'ebs', 'diffusion_type': 'temperature_dependent', 'nspecies': r.lp['nc'] + 1, 'ebs_stencil': st,
             'D_liquid': 1., 'D_solid_A': 1., 'D_solid_B': 1.}
        kw = {}
        if 'db' in r.k.names.values() or any(s.name == 'db' for s in r.k.ins):
            r.lp['b'] = 1
            kw = {'n': 3, 'three': True}
        cp(r, base(r, c, **kw), 'flux', ncomp=r.lp['nc'])
    return f


EBS = []
for st, need, g, gd in (('regular', star(1), 1, 0), ('isotropic', boxn(1), 1, 1), ('order4', star(2), 2, 1)):
    for b in (0, 1):
        k = 'ebs%s%d' % (st, b)
        wide = (lambda c, lo, hi: max(max(l - x, x - h, 0) for x, l, h in zip(c, lo, hi)) <= 1) if st == 'isotropic' else (lambda c, lo, hi: all(l <= x <= h for x, l, h in zip(c, lo, hi)))
        CK(k, 'comp', 'c_op', [FS(x, depth=NC, ng=g, need=need, gen=gi(-3, 3), same=(None if x == 'cl' else 'cl')) for x in ['cl', 'ca'] + ['cb'] * b]
           + [FS(x, 's', depth=DEPTH, ng=gd, need=wide, gen=gi(-2, 2), same=(None if x == 'dl' else 'dl')) for x in ['dl', 'da'] + ['db'] * b],
           [FS('flux', 's', depth=NC, ng=0, scale=12, rnd=st != 'regular')], args, ev='ebsflux', per=lambda r: r.per,
           extra=lambda r: [('conc', 'c', 1, 1, 0.), ('temp', 'c', 1, 1, 0.), ('phi', 'c', 1, 1, 0.), ('pfm0', 's', 1, 0, 0.), ('pfm1', 's', 1, 0, 0.)], params=ebs_p(st))
        EBS.append(k)


def ch_p(r, ctx):
    r.lp.update(nc=1, w=r.rng.randint(1, 2), kap=r.rng.randint(1, 3), ca=r.rng.randint(-1, 1), cb=r.rng.randint(-1, 3))
    c = {'model': 'cahn_hilliard', 'rhs_form': 'cahn_hilliard', 'D_liquid': 1., 'D_solid': 1.,
         'CahnHilliard': {'ca': float(r.lp['ca']), 'cb': float(r.lp['cb']), 'well_scale': float(r.lp['w']), 'kappa': float(r.lp['kap'])}}
    cp(r, base(r, c), 'flux', mkdiff=0)


# what the linear solver is told: the diagonal of the matrix of the whole, the phases' parts added
def pre_p(nc, b):
    def f(r, ctx):
        r.lp.update(nc=nc, b=b)
        cp(r, base(r, {'model': 'quadratic', 'rhs_form': 'ebs', 'diffusion_type': 'temperature_dependent', 'nspecies': nc + 1,
                       'ebs_stencil': r.rng.choice(['regular', 'isotropic', 'order4']), 'D_liquid': 1., 'D_solid_A': 1., 'D_solid_B': 1.},
                   **({'n': 3, 'three': True} if b else {})), 'precond', ncomp=nc)
    return f


PRE = []
for nc in (1, 2):
    for b in (0, 1):
        k = 'pre%d%d' % (nc, b)
        CK(k, 'comp', 'c_op', [FS(x, 's', depth=nc * nc, gen=gi(-5, 5), ng=1, same=(None if x == 'dl' else 'dl')) for x in ['dl', 'da'] + ['db'] * b],
           [FS('pfm%d' % i, 's', ng=1) for i in range(nc)], args, ev='precond',
           extra=CS(['conc', 'temp', 'phi', 'cl', 'ca'] + ['cb'] * b + ['pfm1'] * (nc == 1)), params=pre_p(nc, b))
        PRE.append(k)

fat = lambda c, lo, hi: boxn(1)(c, lo, hi) or star(2)(c, lo, hi)
CK('chflux', 'comp', 'c_op', [FS('conc', depth=1, ng=2, need=fat, gen=gi(-2, 3))], [FS('flux', 's', depth=1, ng=1)], args,
   extra=lambda r: [('temp', 'c', 1, 1, 0.), ('phi', 'c', 1, 1, 0.), ('pfm0', 's', 1, 1, 0.)], params=ch_p)


def wsf_p(r, ctx):
    r.nphi = r.rng.choice([1, 2, 3])
    r.lp.update(A=r.rng.randint(1, 2), B=r.rng.randint(1, 2), beta=r.rng.randint(1, 3), mob=r.rng.randint(1, 2))
    cp(r, ws_model(r, {'D_liquid': 1., 'D_solid': 1., 'mobility': float(r.lp['mob'])}, r.nphi), 'flux')


CK('wsflux', 'comp', 'c_op', [FS('conc', ng=2, need=fat, gen=gi(-2, 3)), PH(gi(-2, 2), 1, boxn(1), 1), FS('d', 's', ng=1, gen=gi(-2, 2))],
   [FS('flux', 's', ng=1)], args, names={'d': 'pfm0'}, extra=CS(['temp']), params=wsf_p)


def cz_p(r, ctx):
    r.lp['nc'] = r.rng.choice([1, 2])
    r.lp['per'] = r.per = [r.rng.randint(0, 1) for _ in range(r.dim)]
    c = r.rng.choice([{'model': 'quadratic', 'D_liquid': 1., 'D_solid_A': 1.},
                      {'model': 'quadratic', 'rhs_form': 'ebs', 'diffusion_type': 'temperature_dependent', 'D_liquid': 1., 'D_solid_A': 1.},
                      {'model': 'quadratic', 'rhs_form': 'Beckermann', 'D_liquid': 1., 'D_solid_A': 1.},
                      {'model': 'wang_sintering', 'D_liquid': 1., 'D_solid_A': 1., 'WangSintering': {'A': 1., 'B': 1., 'beta': 1.}}])
    cp(r, base(r, dict(c, nspecies=r.lp['nc'] + 1)), 'zero', ncomp=r.lp['nc'])


CK('czero', 'comp', 'c_op', [], [FS('flux', 's', depth=NC, init=gi(-5, 5), pre=True)], args, per=lambda r: r.per,
   extra=lambda r: [(x, 'c', 1, 1, 0.) for x in ('conc', 'temp', 'phi', 'cl', 'ca', 'eta', 'ecoup', 'kpart')] + [(x, 's', 1, 0, 0.) for x in ('pfm0', 'pfm1', 'dl', 'da', 'coup')], params=cz_p)


# ---- anti-trapping ----------------------------------------------------------------------------------------------------------
def anti_p(m):
    def f(r, ctx):
        nc = r.rng.choice([1, 2]) if m == 'plain' else 1
        r.nphi = {'plain': 1, 'three': 3}.get(m) or r.rng.choice([2, 3, 4])
        r.nd = 1 if m == 'plain' else r.nphi
        r.lp.update(m=m, nc=nc, alpha=r.rng.randint(-2, 3), tol=400)
        c = {'model': 'quadratic', 'rhs_form': 'ebs', 'diffusion_type': 'temperature_dependent', 'D_liquid': 1., 'D_solid_A': 1., 'D_solid_B': 1., 'antitrapping': True,
             'nspecies': nc + 1}
        cp(r, base(r, c, r.nphi, m == 'three'), 'anti', alpha=float(r.lp['alpha']), ncomp=nc)
    return f


ANTI = []
for m in ('plain', 'three', 'multi'):
    b = ['cb'] if m == 'three' else []
    CK('anti' + m, 'comp', 'c_op', [PH(gi(-2, 2), 1, boxn(1), 1), FS('dphidt', depth=lambda r: r.nd, ng=1, need=star(1), gen=gi(-3, 3))]
       + [FS(x, depth=NC, ng=1, need=star(1), gen=gi(-2, 2), same=(None if x == 'cl' else 'cl')) for x in ['cl', 'ca'] + b],
       [FS('flux', 's', depth=NC, scale=4 * 4096, rnd=True, init=gi(-3, 3), pre=True)], args, ev='anti',
       extra=lambda r: [(x, 'c', 1, 1, 0.) for x in ('conc', 'temp')] + [(x, 's', 1, 0, 0.) for x in ('pfm0', 'pfm1', 'dl', 'da') + (('db',) if r.lp['m'] == 'three' else ())],
       params=anti_p(m), hexp=(0, 1))
    ANTI.append('anti' + m)

FLUX = ['cflux'] + EBS + PRE + ['chflux', 'wsflux']
COEF = ['kkscoef', 'beckcoef', 'cdiff', 'cab', 'wsdiff', 'cmob'] + TDIFF + TAB
