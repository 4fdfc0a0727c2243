"""AMPE's order-parameter right-hand-side classes run over tiled patch levels"""
from cx import *
from kern import gi, star, boxn
from krhs import gphi, SN, NP, lawname, xstar, pyth

EN = {'p': 'pbg', 'h': 'harmonic', 'l': 'linear'}
SRC = [FS(x, gen=gi(-6, 6)) for x in ('sl', 'sa', 'sb')]
MOB = FS('mob', gen=gi(1, 3))
TMP = FS('temp', gen=gi(1, 9))
EXTRA = lambda r: [(n, 'c', 1, 0, 0.) for n in ('fl', 'fa', 'fb')]


def multi_p(r, ctx):
    r.lp['n'] = r.rng.choice([2, 3, 4])
    for k, m in (('m', 3), ('e', 2)):
        r.lp[k] = r.rng.randint(1, m)
    r.lp['g2'] = 3        # AMPE's gamma is 3/2
    r.lp['fe'] = r.rng.randint(0, 1)
    r.lp['iso'] = int(r.dim == 2 and r.rng.random() < .5)
    r.cp = {'kind': 'multi', 'fe': r.lp['fe'], 'times': r.rng.randint(1, 2),
            'model': {'norderp': r.lp['n'], 'epsilon_phi': 2. * r.lp['e'], 'phi_well_scale': r.lp['m'] / 8., 'phi_mobility': 1.,
                      'stencil_type': 'isotropic' if r.lp['iso'] else 'normal', 'Temperature': {'type': 'scalar'}}}


CK('c_multi', 'phase', 'phase_rhs', [FS('phi', depth=NP, ng=1, need=boxn(1), gen=gi(-3, 3)), TMP, MOB] + SRC,
   [FS('rhs', depth=NP, fixed_ng=True, scale=12), FS('flux', 's', depth=NP, fixed_ng=True, scale=12)], lambda r: r.cp, extra=EXTRA, params=multi_p)


def three_p(r, ctx):
    r.lp['n'] = 8
    r.lp['w'] = r.rng.randint(1, 3)
    r.lp['e'] = r.rng.randint(1, 2)
    r.lp['fe'] = r.rng.randint(0, 1)
    r.lp['iso'] = int(r.dim == 2 and r.rng.random() < .5)
    r.cp = {'kind': 'three', 'fe': r.lp['fe'], 'times': r.rng.randint(1, 2),
            'model': {'norderp': 3, 'three_phases': True, 'epsilon_phi': float(r.lp['e']), 'phi_well_scale': float(r.lp['w']), 'phi_mobility': 1.,
                      'stencil_type': 'isotropic' if r.lp['iso'] else 'normal', 'Temperature': {'type': 'scalar'}}}


CK('c_three', 'phase', 'phase_rhs', [FS('phi', depth=3, ng=1, need=boxn(1), gen=gphi(), scale=SN(1)), TMP, MOB] + SRC,
   [FS('rhs', depth=3, fixed_ng=True, scale=lambda r: 12 * 9 * 512), FS('flux', 's', depth=3, fixed_ng=True, scale=lambda r: 12 * r.lp['n'])], lambda r: r.cp, extra=EXTRA, params=three_p)


def q_p(r, ctx):
    r.lp['n'] = 8
    r.lp['orient'] = r.rng.randint(0, 1)
    for k in ('p1', 'p2'):
        r.lp[k] = r.rng.choice('qpwl3c')
    r.lp['h'] = r.rng.choice('lph')
    r.lp['visit'] = r.rng.randint(0, 1)
    r.lp['well'] = r.rng.choice('ds')
    for k in ('w', 'misor', 'e'):
        r.lp[k] = r.rng.randint(1, 3 if k != 'e' else 2)
    e = r.rng.choice([2, 4])
    r.lp['eq2'] = e * e // 2
    r.lp['fe'] = r.rng.randint(0, 1)
    r.lp['flag'] = r.rng.randint(0, 1)
    r.lp['iso'] = int(r.dim == 2 and r.rng.random() < .5)
    L = {'d': 'double', 's': 'single'}
    m = {'epsilon_phi': float(r.lp['e']), 'phi_well_scale': float(r.lp['w']), 'phi_mobility': 1., 'phi_well_func_type': L[r.lp['well']],
         'phi_interp_func_type': EN[r.lp['h']], 'stencil_type': 'isotropic' if r.lp['iso'] else 'normal',
         'Temperature': {'type': 'scalar'}}
    if r.lp['orient']:
        m.update({'H_parameter': r.lp['misor'] / 2., 'epsilon_orient': float(e), 'orient_mobility': 1.,
                  'orient_interp_func_type1': lawname(r, r.lp['p1']), 'orient_interp_func_type2': lawname(r, r.lp['p2'])})
    r.cp = {'kind': 'q', 'fe': r.lp['fe'], 'flag': r.lp['flag'], 'times': r.rng.randint(1, 2), 'model': m, 'visit': {'rhs_output': bool(r.lp['visit'])}}


CK('c_withq', 'phase', 'phase_rhs',
   [FS('phi', ng=1, need=boxn(1), gen=gphi(), scale=SN(1)), TMP, MOB, FS('ogm', gen=gi(0, 5), fixed_ng=True)] + SRC,
   [FS(x, fixed_ng=True, scale=lambda r: 12 * r.lp['n'] ** 4) for x in ('rhs', 'visit')] + [FS('flux', 's', fixed_ng=True, scale=lambda r: 12 * r.lp['n'])],
   lambda r: r.cp, extra=EXTRA, params=q_p)


def proj_p(r, ctx):
    r.lp['n'] = r.rng.choice([2, 3, 4])
    kind = r.rng.choice(['multi', 'three']) if r.lp['n'] == 3 else 'multi'
    r.cp = {'kind': kind, 'model': {'norderp': r.lp['n'], 'three_phases': kind == 'three', 'epsilon_phi': 1., 'phi_well_scale': 1., 'phi_mobility': 1., 'Temperature': {'type': 'scalar'}}}


CK('c_project', 'phase', 'project', [FS('phi', depth=NP, gen=gi(-9, 9))],
   [FS('corr', depth=NP, scale=NP), FS('err', depth=NP, init=gi(-9, 9), scale=NP, prescale=1)], lambda r: r.cp,
   extra=lambda r: [('flux', 's', r.lp['n'], 0, 0.)], params=proj_p)


def frame_p(r, ctx):
    r.lp['up'] = r.rng.randint(0, 1)
    r.lp['n'] = r.rng.choice([1, 1, 2, 3])
    r.lp['vel'] = r.rng.choice([-3, -1, 1, 2, 4])
    r.lp['per'] = [r.rng.randint(0, 1) for _ in range(r.dim)]


CK('c_frame', 'phase', 'frame', [FS('phase', depth=NP, ng=2, need=xstar(1, 2), gen=gi(-9, 9))],
   [FS('rhs', depth=NP, init=gi(-5, 5), scale=6)], lambda r: {'upwind': r.lp['up'], 'vel': float(r.lp['vel'])}, params=frame_p, per=lambda r: r.lp['per'])


ALL = ['c_multi', 'c_three', 'c_withq', 'c_project', 'c_frame']
