"""rigid-body forces between grains and the motion they cause, over tiled levels"""
from cx import *
from kern import gi, star
from krhs import NP

def rb_p(r, ctx):
    r.lp['n'] = r.rng.choice([2, 3, 4])
    nb = r.lp['nb'] = r.lp['n'] - 1
    r.lp['mob'] = r.rng.randint(1, 4)
    r.lp['vol'] = []
    r.lp['force'] = [r.rng.randint(-4, 4) for _ in range(nb * r.dim)]
    r.cp = {'mobility': float(r.lp['mob']), 'forces': [float(x) for x in r.lp['force']], 'times': 1}


def rb_set(r, ctx):
    """weights and phases chosen so that each body's volume is a power of two"""
    n = r.lp['n']
    w, f = r.f['weight'].fs[0], r.f['phase'].fs[0]
    cs = list(cells(r.lo, r.hi))
    for m in range(n):
        tot = sum(f.get(c, m) * w.get(c, 0) for c in cs)
        tgt = ctx.rng.choice([1., 2., 4., 8.])
        c = ctx.rng.choice(cs)
        f.set(c, (tgt - (tot - f.get(c, m) * w.get(c, 0))) / w.get(c, 0), m)
        if m < n - 1:
            r.lp['vol'].append(int(tgt))


CK('c_rbmotion', 'rigid', 'rbmotion', [FS('phase', depth=NP, ng=1, need=star(1), gen=gi(-6, 6), scale=8), FS('weight', gen=lambda r, ctx: (lambda *a: ctx.rng.choice([1., 2., .5])), depth=1, scale=2)],
   [FS('rhs', depth=NP, init=gi(-5, 5), scale=256, prescale=256)], lambda r: r.cp, params=rb_p, setup=rb_set)

CK('c_rbconc', 'rigid', 'rbmotionconc', [FS('phase', depth=NP, ng=1, need=star(1), gen=gi(-6, 6), scale=8), FS('weight', gen=lambda r, ctx: (lambda *a: ctx.rng.choice([1., 2., .5])), depth=1, scale=2)],
   [FS('rhs', init=gi(-5, 5), scale=256, prescale=256)], lambda r: r.cp, params=rb_p, setup=rb_set)


def f_p(r, ctx):
    """n grains; Wang: threshold t + s/40 so that the cut-off argument is a multiple of 1/4"""
    n = r.lp['n'] = r.rng.choice([2, 3, 4])
    nb = r.lp['nb'] = n - 1 if n == 2 else r.rng.choice([n - 1, n - 1, n])
    r.lp['wang'] = r.rng.randint(0, 1)
    if not r.lp['wang']:
        nb = r.lp['nb'] = n - 1
    r.lp['nc'] = r.rng.choice([1, 1, 2])
    r.lp['t'], r.lp['s'] = r.rng.randint(0, 2), r.rng.randint(0, 3)
    r.lp['rho'] = r.rng.randint(0, 3)
    r.lp['k'] = r.rng.choice([1, 2, 3])
    r.lp['m'] = r.rng.randint(1, 2)
    na = r.rng.choice([nb, max(nb - 1, 1)])
    # the liquid is the last of norderp order parameters
    r.cp = {'kind': 'wang' if r.lp['wang'] else 'phase', 'nb': nb, 'times': r.rng.randint(1, 2),
            'model': {'norderp': nb + 1, 'norderp_A': na, 'epsilon_phi': 1., 'phi_well_scale': r.lp['m'] / 8., 'phi_mobility': 1., 'Temperature': {'type': 'scalar'},
                      'RigidBody': {'stiffness': float(r.lp['k']), 'threshold': r.lp['t'] + r.lp['s'] / 40. + 1e-300, 'equil_gb': r.lp['rho'] / 4.}}}
    r.lp['n'] = nb + 1


CK('c_rbforce', 'rigid', 'rbforces',
   [FS('phase', depth=NP, ng=1, need=star(1), gen=gi(-2, 3)), FS('conc', depth=lambda r: r.lp['nc'], gen=gi(-2, 2), scale=4),
    FS('weight', fixed_ng=True, gen=gi(0, 3))], [], lambda r: r.cp, params=f_p,
   results=lambda r, w: {'force': [w.res('force'), (4096. * 2 if r.lp['wang'] else 4.,)]})

ALL = ['c_rbmotion', 'c_rbconc', 'c_rbforce']
