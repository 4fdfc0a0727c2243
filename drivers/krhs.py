"""order-parameter right-hand sides and gradient fluxes"""
from kern import *
POLY = ['q', 'p', 'h', 'w', 'l', '3', 'c']
LONG = {'q': 'quadratic', 'p': 'pbg', 'h': 'harmonic', 'w': 'wang', 'l': 'linear', '3': '3', 'c': 'constant', 'd': 'double',
        's': 'single'}


def lawname(r, k):
    """the code looks at the first letter of the option only"""
    return r.rng.choice([k, LONG[k]])


def SN(k):
    return lambda r: r.lp['n'] ** k


def gphi(lo=-2, over=2):
    return lambda r, ctx: (lambda *a: r.rng.randint(lo, r.lp['n'] + over) / float(r.lp['n']))


def flux_args(r, name='flux'):
    return [*r.f[name].fs, ng(r, name)]


# ---- gradient fluxes ----
def eps_p(lo=1, hi=3):
    def f(r, ctx):
        e = r.rng.randint(lo, hi)
        r.p['eps'] = float(e); r.lp['e2'] = e * e
    return f


for key, sub, sc, nd, dims in (('gradient_flux', 'gradient_flux', 1, star(1), (2, 3)),
                               ('gradient_flux_wide', 'gradient_flux_wide', 8, boxn(1), (2,)),
                               ('flux_isotropic', 'compute_flux_isotropic', 12, boxn(1), (2,))):
    K(key, sub, [FS('phase', ng=1, need=nd, gen=gi(-9, 9))], [FS('flux', 's', scale=sc)],
      lambda r: [*box(r), r.h, r.p['eps'], r.f['phase'], ng(r, 'phase'), *flux_args(r)], params=eps_p(), dims=dims)


def dep_p(r, ctx):
    r.p['depth'] = r.lp['depth'] = r.rng.choice([1, 2, 3])
    r.p['physb'] = r.lp['physb'] = [r.rng.randint(0, 1) for _ in range(2 * r.dim)]


D = lambda r: r.p['depth']
D2 = lambda r: r.p['depth'] ** 2
for key, nd, n, ex in (('add_flux', star(1), 0, False), ('add_flux_iso', boxn(1), 1, False), ('add_flux_4th', star(2), 0, True)):
    K(key, key, [FS('data', depth=D, ng=2 if ex else 1, need=nd, gen=gi(-9, 9)),
                 FS('d', 's', depth=D2, ng=n, need=star(1) if n else interior, gen=gi(-3, 4))],
      [FS('flux', 's', depth=D, scale=12, init=gi(-5, 5))],
      (lambda ex: lambda r: [*box(r), r.h, r.f['data'], ng(r, 'data'), r.p['depth'], *r.f['d'].fs, ng(r, 'd'), *flux_args(r)]
       + ([list(r.p['physb'])] if ex else []))(ex), params=dep_p)


# ---- anisotropic ----
def aniso2_p(r, ctx):
    eps_p(1, 2)(r, ctx)
    r.lp['v'] = r.rng.choice([2, 4, 8]); r.p['nu'] = 1. / r.lp['v']
    r.lp['k'] = r.p['k'] = r.rng.choice([4, 4, 2, 6])
    r.lp['qlen'] = r.p['qlen'] = r.rng.choice([1, 2, 4])
    r.lp['q'] = r.rng.choice([1, 5, 4])


def aniso2_set(r, ctx):
    q, Q = r.f['quat'].fs[0], r.lp['q']
    vals = {1: [0, 1, -1, 2], 5: [3, 3, 3, -3, 5, 4], 4: [1, 2, 3, 4, -4, -2, 0, 5]}[Q]
    for c in cells(q.lo, q.hi):
        q.a[q.idx(c)] = 3.0
        q.a[q.idx(c) + (0,)] = r.rng.choice(vals) / float(Q)


def rnd_scale(s):
    return lambda r: s


K('aniso2', 'anisotropic_gradient_flux',
  [FS('phase', ng=1, need=boxn(1), gen=gi(-2, 2)),
   FS('quat', depth=lambda r: r.p['qlen'], ng=1, need=star(1), scale=lambda r: r.lp["q"])],
  [FS('flux', 's', scale=4096, rnd=True)],
  lambda r: [*box(r), r.h, r.p['eps'], r.p['nu'], r.p['k'], r.f['phase'], ng(r, 'phase'), r.f['quat'], ng(r, 'quat'),
             r.p['qlen'], *flux_args(r)], params=aniso2_p, setup=aniso2_set, dims=(2,), hexp=(0, 1))


def aniso3_p(r, ctx):
    eps_p(1, 2)(r, ctx)
    r.lp['v'] = r.rng.choice([8, 16, 32, -16]); r.p['e4'] = 1. / r.lp['v']


def aniso3_set(r, ctx):
    q = r.f['quat'].fs[0]
    for c in cells(q.lo, q.hi):
        v = [0] * 4
        v[r.rng.randrange(4)] = r.rng.choice([1, -1])
        q.a[q.idx(c)] = v


K('aniso3', 'anisotropic_gradient_flux',
  [FS('phase', ng=1, need=boxn(1), gen=gi(-2, 2)), FS('quat', depth=4, ng=1, need=star(1))],
  [FS('flux', 's', scale=4096, rnd=True)],
  lambda r: [*box(r), r.h, r.p['eps'], r.p['e4'], 4, r.f['phase'], ng(r, 'phase'), r.f['quat'], ng(r, 'quat'), 4,
             *flux_args(r)], params=aniso3_p, setup=aniso3_set, dims=(3,), hexp=(0, 1))


# ---- right-hand sides ----
def pbg_p(r, ctx):
    three = r.p['three'] = r.lp['three'] = int(r.rng.random() < .4)
    r.lp['n'] = 4 if three else 8
    r.p['orient'] = r.lp['orient'] = r.rng.randint(0, 1)
    for k in ('p1', 'p2', 'h'):
        r.lp[k] = r.rng.choice(POLY); r.p[k] = lawname(r, r.lp[k])
    for k in ('well', 'ewell'):
        r.lp[k] = r.rng.choice('ds'); r.p[k] = lawname(r, r.lp[k])
    for k in ('w', 'we', 'misor'):
        r.lp[k] = r.rng.randint(1, 3); r.p[k] = float(r.lp[k])
    e = r.rng.choice([2, 4]); r.p['epsq'] = float(e); r.lp['eq2'] = e * e // 2


K('rhspbg', 'computerhspbg',
  [FS('flux', 's', gen=gi(-7, 7)), FS('temp', gen=gi(1, 9)), FS('phi', gen=gphi(), scale=SN(1)), FS('eta', gen=gphi(), scale=SN(1)),
   FS('ogm', gen=gi(0, 5))],
  [FS('rhs', scale=lambda r: r.lp['n'] ** (8 if r.lp['three'] else 4))],
  lambda r: [*box(r), r.h, r.p['misor'], r.p['epsq'], *flux_args(r), r.f['temp'], ng(r, 'temp'), r.p['w'], r.p['we'],
             r.f['phi'], ng(r, 'phi'), r.f['eta'], ng(r, 'eta'), r.f['ogm'], ng(r, 'ogm'), r.f['rhs'], ng(r, 'rhs'),
             r.p['well'], r.p['ewell'], r.p['h'], r.p['p1'], r.p['p2'], r.p['orient'], r.p['three']], params=pbg_p)


def eta_p(r, ctx):
    pbg_p(r, ctx)
    r.lp['n'] = 4


def fl(n=0):
    return FS('fl', gen=gi(-6, 6), fixed_ng=True)


K('rhseta', 'computerhseta',
  [FS('flux', 's', gen=gi(-7, 7)), FS('temp', gen=gi(1, 9), nolog=True), FS('phi', gen=gphi(), scale=SN(1)), FS('eta', gen=gphi(), scale=SN(1))],
  [FS('rhs', scale=SN(8))],
  lambda r: [*box(r), r.h, *flux_args(r), r.f['temp'], ng(r, 'temp'), r.p['we'], r.f['phi'], ng(r, 'phi'), r.f['eta'],
             ng(r, 'eta'), r.f['rhs'], ng(r, 'rhs'), r.p['ewell'], r.p['h']], params=eta_p)


def n8_p(r, ctx):
    r.lp['n'] = 8
    r.lp['w'] = r.rng.randint(1, 3); r.p['w'] = float(r.lp['w'])
    r.lp['h'] = r.rng.choice(POLY); r.p['h'] = lawname(r, r.lp['h'])


K('rhsthree', 'computerhsthreephases',
  [FS('flux', 's', depth=3, gen=gi(-7, 7)), FS('phi', depth=3, gen=gphi(), scale=SN(1))],
  [FS('rhs', depth=3, scale=lambda r: 9 * 512)],
  lambda r: [*box(r), r.h, *flux_args(r), r.p['w'], r.f['phi'], ng(r, 'phi'), r.f['rhs'], ng(r, 'rhs')], params=n8_p)


def grains_p(r, ctx):
    r.lp['n'] = r.rng.choice([1, 2, 3, 5])
    for k in ('m', 'gamma', 'beta', 'b'):
        r.lp[k] = r.rng.randint(1, 4); r.p[k] = float(r.lp[k])
    r.lp['g2'] = 2 * r.lp['gamma']


NP = lambda r: r.lp['n']


def scratch(r, ctx):
    n = int(np.prod([h - l + 1 for l, h in zip(r.lo, r.hi)]))
    r.p['tmp'] = np.full(n, SENT)


K('rhsgrains', 'computerhsmultiorder',
  [FS('flux', 's', depth=NP, gen=gi(-7, 7)), FS('phi', depth=NP, gen=gi(-3, 3))], [FS('rhs', depth=NP)],
  lambda r: [*box(r), r.lp['n'], r.h, *flux_args(r), r.p['gamma'], r.p['m'], r.f['phi'], ng(r, 'phi'), r.p['tmp'],
             r.f['rhs'], ng(r, 'rhs')], params=grains_p, setup=scratch)
K('rhswang', 'computerhs_wang_sintering',
  [FS('flux', 's', depth=NP, gen=gi(-7, 7)), FS('phi', depth=NP, gen=gi(-3, 3)), FS('conc', gen=gi(-2, 3))], [FS('rhs', depth=NP)],
  lambda r: [*box(r), r.lp['n'], r.h, *flux_args(r), r.p['beta'], r.p['b'], r.f['phi'], ng(r, 'phi'), r.f['conc'], ng(r, 'conc'),
             r.p['tmp'], r.f['rhs'], ng(r, 'rhs')], params=grains_p, setup=scratch)

K('fenergy', 'phaserhs_fenergy',
  [FS('fl', gen=gi(-6, 6), fixed_ng=True), FS('fa', gen=gi(-6, 6), fixed_ng=True), FS('phi', gen=gphi(), scale=SN(1))],
  [FS('rhs', init=gi(-5, 5), scale=SN(4))],
  lambda r: [*box(r), r.f['fl'], r.f['fa'], r.f['phi'], ng(r, 'phi'), r.f['rhs'], ng(r, 'rhs'), r.p['h']], params=n8_p)


def multi_p(r, ctx):
    r.lp['n'] = r.rng.choice([2, 3, 4, 5])
    r.lp['sc'] = 1 << 14


def multi_set(r, ctx):
    f = r.f['phi'].fs[0]
    n = r.lp['n']
    for c in cells(f.lo, f.hi):
        while True:
            v = [r.rng.randint(-4, 5) for _ in range(n)]
            if r.rng.random() < .3:
                v = [x if r.rng.random() < .4 else 0 for x in v]
            if sum(x * x for x in v) in (1, 2, 4, 8, 16, 32, 64):
                break
        f.a[f.idx(c)] = v


K('fenergymulti', 'phaserhs_fenergy_multiorderp',
  [FS('fl', gen=gi(-6, 6), fixed_ng=True), FS('fa', gen=gi(-6, 6), fixed_ng=True), FS('phi', depth=NP)],
  [FS('rhs', depth=NP, init=gi(-5, 5), scale=lambda r: r.lp['sc'])],
  lambda r: [*box(r), r.f['fl'], r.f['fa'], r.f['phi'], ng(r, 'phi'), r.lp['n'], r.f['rhs'], ng(r, 'rhs')]
  + (['pbg'] if r.dim == 3 else []), params=multi_p, setup=multi_set)


def etaf_p(r, ctx):
    n8_p(r, ctx)
    r.lp['n'] = 4
    r.lp['eh'] = r.rng.choice(POLY); r.p['eh'] = lawname(r, r.lp['eh'])


K('etafenergy', 'etarhs_fenergy',
  [FS(x, gen=gi(-6, 6), fixed_ng=True) for x in ('fl', 'fa', 'fb')] + [FS('phi', gen=gphi(), scale=SN(1)), FS('eta', gen=gphi(), scale=SN(1), same='phi')],
  [FS('rhs', init=gi(-5, 5), scale=SN(9))],
  lambda r: [*box(r), r.f['fl'], r.f['fa'], r.f['fb'], r.f['phi'], ng(r, 'phi'), r.f['eta'], ng(r, 'eta'), r.f['rhs'], ng(r, 'rhs'),
             r.p['h'], r.p['eh']], params=etaf_p)
REG['etafenergy'].ins[4].same = None


def temp_p(r, ctx):
    r.p['phase'] = r.lp['phase'] = r.rng.randint(0, 1)
    r.lp['coef'] = r.rng.randint(1, 4); r.p['coef'] = float(r.lp['coef'])
    r.lp['latent'] = r.rng.randint(1, 7); r.p['latent'] = float(r.lp['latent'])


K('rhstemp', 'computerhstemp',
  [FS('temp', ng=1, need=star(1), gen=gi(-20, 20)), FS('cp', gen=lambda r, ctx: (lambda *a: float(r.rng.choice([1, 2, 4])))),
   FS('phirhs', gen=gi(-9, 9))], [FS('rhs', scale=4)],
  lambda r: [*box(r), r.h, r.p['coef'], r.p['latent'], r.f['temp'], ng(r, 'temp'), r.f['cp'], ng(r, 'cp'), r.p['phase'],
             r.f['phirhs'], ng(r, 'phirhs'), r.f['rhs'], ng(r, 'rhs')], params=temp_p)


def bias_p(r, ctx):
    r.lp['n'] = 8
    r.lp['alpha'] = r.rng.randint(1, 5); r.p['alpha'] = float(r.lp['alpha'])
    r.p['gam'] = float(r.rng.choice([1, .5, .25]))


def bias_set(r, ctx):
    t, e = r.f['temp'].fs[0], r.f['te'].fs[0]
    for c in cells(r.lo, r.hi):
        x = float(r.rng.randint(-50, 50))
        t.set(c, x); e.set(c, x + r.rng.choice([-1, 0, 1]) / r.p['gam'])


CC = [FS('phi', gen=gphi(), scale=SN(1)), FS('temp', gen=gi(-20, 20)), FS('te', gen=gi(-20, 20))]
K('biaswell', 'computerhsbiaswell', [FS('phi', gen=gphi(), scale=SN(1)), FS('temp'), FS('te')],
  [FS('rhs', init=gi(-5, 5), scale=lambda r: 4 * 64, rnd=True)],
  lambda r: [*box(r), r.f['phi'], ng(r, 'phi'), r.f['temp'], ng(r, 'temp'), r.p['alpha'], r.p['gam'], r.f['te'], ng(r, 'te'),
             r.f['rhs'], ng(r, 'rhs')], params=bias_p, setup=bias_set)
K('biasbeck', 'computerhsbiaswellbeckermann', CC, [FS('rhs', init=gi(-5, 5), scale=64)],
  lambda r: [*box(r), r.f['phi'], ng(r, 'phi'), r.f['temp'], ng(r, 'temp'), r.p['alpha'], r.f['te'], ng(r, 'te'),
             r.f['rhs'], ng(r, 'rhs')], params=bias_p)


def dt_p(r, ctx):
    n8_p(r, ctx)
    r.lp['tm'] = r.rng.choice([4, 8, 16])
    r.lp['alpha'] = r.rng.randint(1, 3)
    r.lp['mob'] = r.rng.randint(1, 3)


K('deltatemp', 'computerhsdeltatemperature',
  [FS('phi', gen=gphi(), scale=SN(1)), FS('temp', ng=1, need=star(1), gen=gi(0, 20))],
  [FS('rhs', init=gi(-5, 5), scale=48 * 4096)],
  lambda r: [*box(r), r.f['phi'], ng(r, 'phi'), r.f['temp'], ng(r, 'temp'), float(r.lp['tm']), float(r.lp['alpha'] * r.lp['tm']),
             r.f['rhs'], ng(r, 'rhs'), r.p['h']], params=dt_p)
K('dphidtemp', 'computedphidtemperaturedeltatemperature', [FS('phi', gen=gphi(), scale=SN(1))], [FS('rhs', scale=SN(4))],
  lambda r: [*box(r), r.f['phi'], ng(r, 'phi'), float(r.lp['tm']), float(r.lp['alpha'] * r.lp['tm']), float(r.lp['mob']),
             r.f['rhs'], ng(r, 'rhs'), r.p['h']], params=dt_p)


# ---- moving frame ----
def fr_p(r, ctx):
    r.lp['vel'] = r.rng.choice([-3, -1, 1, 2, 4]); r.p['vel'] = float(r.lp['vel'])
    r.lp['physb'] = r.p['physb'] = r.rng.randint(0, 1)


def xstar(n, m):
    """reads n cells below and m above along the first axis only"""
    def f(c, lo, hi):
        return all(l <= x <= h for x, l, h in list(zip(c, lo, hi))[1:]) and lo[0] - n <= c[0] <= hi[0] + m
    return f


K('frame2', 'addvdphidx', [FS('phase', ng=1, need=xstar(1, 1), gen=gi(-9, 9))], [FS('rhs', init=gi(-5, 5), scale=2)],
  lambda r: [*box(r), r.h, r.f['phase'], ng(r, 'phase'), r.p['vel'], r.f['rhs'], ng(r, 'rhs')], params=fr_p)
K('frame3', 'addvdphidx_upwind3', [FS('phase', ng=2, need=xstar(1, 2), gen=gi(-9, 9))], [FS('rhs', init=gi(-5, 5), scale=6)],
  lambda r: [*box(r), r.h, r.f['phase'], ng(r, 'phase'), r.p['vel'], r.f['rhs'], ng(r, 'rhs'), r.p['physb']], params=fr_p)

FLUX = ['gradient_flux', 'gradient_flux_wide', 'flux_isotropic', 'add_flux', 'add_flux_iso', 'add_flux_4th', 'aniso2', 'aniso3']
PHASE = ['rhspbg', 'rhseta', 'fenergy', 'etafenergy', 'rhsgrains', 'rhswang', 'fenergymulti', 'biaswell', 'biasbeck',
         'deltatemp', 'dphidtemp']
MULTI = ['rhsthree', 'rhsgrains', 'rhswang', 'fenergymulti']
FRAME = ['frame2', 'frame3']
