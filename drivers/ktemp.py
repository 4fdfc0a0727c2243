"""heat equation kernels"""
from kern import *
import krhs


def gcp(r, ctx):
    return lambda *a: float(r.rng.choice([1, 2, 4]))


def st_p(r, ctx):
    r.lp['src'] = [r.rng.randint(-5, 5) for _ in range(2)]
    r.p['src'] = [float(x) for x in r.lp['src']]
    r.lp['latent'] = 0


K('source', 'source_temperature', [FS('conc', gen=gi(-3, 4)), FS('cp', gen=gcp)], [FS('rhs', scale=4)],
  lambda r: [*box(r), r.f['conc'], ng(r, 'conc'), r.f['rhs'], ng(r, 'rhs'), r.f['cp'], ng(r, 'cp'), r.p['src'], 2], params=st_p)


def hc_p(r, ctx):
    r.lp['nc'] = r.rng.choice([1, 1, 2, 3]); r.lp['npow'] = r.rng.choice([1, 2, 3])
    r.lp['pow'] = r.rng.sample([0, 1, 2, -1, -2], r.lp['npow'])
    r.lp['co'] = [r.rng.randint(-4, 5) for _ in range((r.lp['nc'] + 1) * r.lp['npow'])]


K('heatcap', 'heat_capacity_nkr',
  [FS('conc', depth=lambda r: r.lp['nc'], gen=gi(-3, 4)), FS('temp', gen=gcp)], [FS('cp', scale=16)],
  lambda r: [*box(r), r.f['conc'], ng(r, 'conc'), r.lp['nc'], r.f['temp'], ng(r, 'temp'), r.f['cp'], ng(r, 'cp'), r.lp['pow'], r.lp['npow'],
             [float(x) for x in r.lp['co']], len(r.lp['co'])], params=hc_p)


def g_p(r, ctx):
    """coordinates in units u = 1/8"""
    dx8 = [int(8 * h) for h in r.h]
    r.lp['dx'] = dx8
    r.lp['xlo'] = [r.rng.randint(-20, 20) for _ in dx8]
    n = [h - l + 1 for l, h in zip(r.lo, r.hi)]
    r.lp['ctr'] = [x + r.rng.randint(-d, d * k + d) for x, d, k in zip(r.lp['xlo'], dx8, n)]
    r.lp['ll'] = [r.rng.choice([0, d * k, d * (k + 2)]) for d, k in zip(dx8, n)]
    r.lp['g'] = r.rng.choice([4, 16, 64])     # exponent -R/g, R squared distance in u^2
    r.p['sd'] = math.sqrt(r.lp['g'] / 64. / (2 * math.log(2.)))
    r.lp['base'] = r.rng.randint(-3, 9); r.lp['peak'] = r.lp['base'] + r.rng.choice([1, 2, 4, -4, 8])
    r.lp['heat'] = r.lp['peak'] - r.lp['base']


E8 = lambda v: [x / 8. for x in v]
gargs = lambda r: [E8(r.lp['dx']), E8(r.lp['xlo']), *box(r)]
K('gaussian', 'initgaussian', [], [FS('var', scale=1 << 20, rnd=True)],
  lambda r: [*gargs(r), r.f['var'], ng(r, 'var'), E8(r.lp['ctr']), E8(r.lp['ll']), r.p['sd'], float(r.lp['base']), float(r.lp['peak'])], params=g_p)
K('gsource', 'initgaussiansource', [FS('cp', gen=gcp)], [FS('rhs', scale=1 << 20, rnd=True)],
  lambda r: [*gargs(r), r.f['rhs'], ng(r, 'rhs'), r.f['cp'], ng(r, 'cp'), E8(r.lp['ctr']), E8(r.lp['ll']), r.p['sd'], float(r.lp['heat'])],
  params=g_p)


def m_p(r, ctx):
    for k in ('tref', 'cref', 'slope'):
        r.lp[k] = r.rng.randint(-6, 9)


K('meltline', 'linearmeltingline', [FS('conc', gen=gi(-5, 5))], [FS('temp')],
  lambda r: [*box(r), r.f['temp'], ng(r, 'temp'), r.f['conc'], ng(r, 'conc'), float(r.lp['tref']), float(r.lp['cref']), float(r.lp['slope'])],
  params=m_p)


def gr_p(r, ctx):
    g_p(r, ctx)
    r.lp['tref'] = r.rng.randint(-6, 9)
    r.lp['grad'] = [r.rng.randint(-4, 4) for _ in range(r.dim)]


K('gradient', 'initgradient', [], [FS('var', scale=8)],
  lambda r: [*gargs(r), r.f['var'], ng(r, 'var'), E8(r.lp['ctr']), float(r.lp['tref']), [float(x) for x in r.lp['grad']]], params=gr_p)
ALL = ['source', 'heatcap', 'gaussian', 'gsource', 'meltline', 'gradient', 'rhstemp']
