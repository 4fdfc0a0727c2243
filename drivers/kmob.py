"""mobilities and coefficients of the orientation equation"""
from kern import *
from krhs import POLY, lawname, gphi
import qops, kgrad
from qops import op
LN2 = math.log(2.)
R = 8.314472


def iphi(r, ctx):
    lo = -1 if r.lp.get('t') != 'i' or r.lp.get('der') == 0 else 1
    return lambda *a: r.rng.randint(lo, 5) / 4.


def qm_p(der):
    def f(r, ctx):
        r.lp['n'] = 4
        r.lp['der'] = der
        t = r.lp['t'] = r.rng.choice('pei')
        m = r.lp['m'] = r.rng.choice([1, 2, -1])
        r.lp['alt'] = r.rng.choice([1, 3, 50]) if r.rng.random() < .7 else 2
        r.p['alt'] = 4 * m * LN2 if t == 'e' else float(r.lp['alt'])
        r.lp['sc'], r.lp['mn'] = r.rng.randint(2, 9), r.rng.randint(0, 2)
        r.p['sc'], r.p['mn'] = float(r.lp['sc']), float(r.lp['mn'])
        r.p['t'] = r.rng.choice({'p': ['pbg', 'p'], 'e': ['exponential', 'e'], 'i': ['inverse', 'i']}[t])
        if der:
            d = 2 ** (4 * abs(m)) - 1
            r.S = {'p': 256, 'e': d / (4 * abs(m) * LN2) if m > 0 else d / (4 * LN2), 'i': 1728}[t]
            if t == 'e' and m < 0:
                # c exp(c phi)/(1-exp(c)), c = -N|m| ln2: -(N|m| ln2) 2^(-|m|K) / (1 - 2^(-|m|N))
                r.S = d / (4 * abs(m) * LN2)
        else:
            r.S = {'p': 1024, 'e': 2 ** (4 * abs(m)) - 1, 'i': 144}[t]
    return f


SS = lambda r: r.S
K('quatmobility', 'quatmobility', [FS('phi', gen=iphi, scale=4, need=lambda c, lo, hi: True, ng=1)], [FS('mob', ng=0, fixed_ng=True, scale=SS, rnd=True)],
  lambda r: [*box(r), r.f['phi'], ng(r, 'phi'), r.f['mob'], ng(r, 'mob'), r.p['sc'], r.p['mn'], r.p['t'], r.p['alt']], params=qm_p(0))
K('quatmobderiv', 'quatmobilityderiv', [FS('phi', gen=iphi, scale=4)], [FS('mob', scale=SS, rnd=True)],
  lambda r: [*box(r), r.f['phi'], ng(r, 'phi'), r.f['mob'], ng(r, 'mob'), r.p['sc'], r.p['mn'], r.p['t'], r.p['alt']], params=qm_p(1))


def cphi(r, ctx):
    if r.lp['avg'] == 'h':
        return lambda *a: r.rng.choice([.25, .75, .25, .75, 0., -.25] if r.lp.get('zero') else [.25, .75])
    return gphi(-1, 1)(r, ctx)


def fc_p(r, ctx):
    r.lp['n'] = 4
    r.p['depth'] = r.lp['depth'] = r.rng.choice([1, 2, 4])
    r.lp['avg'] = r.rng.choice('ah')
    r.lp['zero'] = 1
    r.p['avg'] = r.rng.choice([r.lp['avg'], {'a': 'arithmetic', 'h': 'harmonic'}[r.lp['avg']]])
    r.lp['mis'] = r.rng.choice([2, 4]); r.p['mis'] = float(r.lp['mis'])
    r.lp['ft'] = r.rng.choice('mmts')
    r.p['ft'] = r.rng.choice([r.lp['ft'], {'m': 'max', 't': 'tanh', 's': 'sqrt'}[r.lp['ft']]])
    r.lp['fn'] = {'m': r.rng.choice([64, 128, 2, 256]), 't': 2, 's': r.rng.choice([64, 128, 192])}[r.lp['ft']]
    r.p['floor'] = r.lp['fn'] / 64.
    for k in ('p1', 'p2'):
        r.lp[k] = r.rng.choice(POLY); r.p[k] = lawname(r, r.lp[k])
    if r.lp['fn'] == 2 and r.lp['p1'] in '3wqc':
        r.lp['p1'] = 'p'; r.p['p1'] = lawname(r, 'p')
    r.lp['e2'] = r.rng.choice([1, 4, 9]); r.p['eps'] = math.isqrt(r.lp['e2']) * 1.


def fc_set(r, ctx):
    n = r.p['depth'] * r.dim
    fl = r.lp['fn'] // 64 if r.lp['ft'] == 's' else 0
    for fld in r.f['grad'].fs:
        for c in cells(fld.lo, fld.hi):
            while True:
                v = [r.rng.randint(-3, 3) if r.rng.random() < .5 else 0 for _ in range(n)]
                m = sum(x * x for x in v) + fl * fl
                q = math.isqrt(m)
                if q * q == m and q in ((1, 2, 3, 4, 6) if fl else (0, 1, 2, 3, 4, 6)):
                    break
            fld.a[fld.idx(c)] = np.array(v, dtype=float).reshape(fld.extra)


CI = [FS('phi', gen=cphi, ng=1, need=star(1), scale=4), FS('temp', gen=gi(1, 3), ng=1, need=star(1)), FS('grad', 's', depth=kgrad.SG)]
K('facecoef', {2: 'compute_face_coef2d', 3: 'compute_face_coef3d'}, CI, [FS('fc', 's', scale=24 * 8 ** 5)],
  lambda r: [*box(r), r.p['depth'], r.p['eps'], r.f['phi'], ng(r, 'phi'), r.f['temp'], ng(r, 'temp'), r.p['mis'], r.f['grad'], ng(r, 'grad'), *r.f['fc'].fs, ng(r, 'fc'),
             r.p['floor'], r.p['ft'], r.p['p1'], r.p['p2'], r.p['avg']], params=fc_p, setup=fc_set)
K('dcoef', 'quatdiffusionderiv', CI, [FS('fc', 's', depth=2, scale=24 * 8 ** 5)],
  lambda r: [*box(r), r.p['mis'], r.f['temp'], ng(r, 'temp'), r.f['phi'], ng(r, 'phi'), r.p['depth'], r.f['grad'], ng(r, 'grad'), r.f['fc'], ng(r, 'fc'),
             r.p['floor'], r.p['ft'], r.p['p1'], r.p['avg']], params=fc_p, setup=fc_set)
K('dqdphicoef', {2: 'compute_dquatdphi_face_coef2d', 3: 'compute_dquatdphi_face_coef3d'}, [FS('dp', 's', depth=2), FS('phi', ng=1, need=star(1))], [FS('fc', 's')],
  lambda r: [*box(r), 1, *[x for f in r.f['dp'].fs for x in (f, *fb(f))], r.f['phi'], *fb(r.f['phi'].fs[0]), *[x for f in r.f['fc'].fs for x in (f, *fb(f))]])
KERN = ['quatmobility', 'quatmobderiv', 'facecoef', 'dcoef', 'dqdphicoef']


# ---- the model's operations --------------------------------------------------------------------------------------
def mob_mp(r):
    d = {'orient_mobility': r.p['sc'], 'min_orient_mobility': r.p['mn'], 'quat_mobility_func_type': r.p['t']}
    a = r.rng.random() < .5
    if r.lp['t'] == 'e':
        d['exp_scale_orient_mobility' if a else 'exp_scale_quat_mobility'] = r.p['alt']
    if r.lp['t'] == 'i':
        d['max_orient_mobility' if a else 'max_quat_mobility'] = r.p['alt']
    return d


MI = lambda: [FS('phi', gen=iphi, scale=4, fixed_ng=True, ng=0)]
VIA = ('direct', 'simple', 'level')
op('m_quat_mob', 'quat_mob', [FS('phi', gen=iphi, scale=4, ng=0)], [FS('mob', fixed_ng=True, scale=SS, rnd=True)], ('phi', 'phase_scratch'), ('mob', 'quat_mobility'), vias=VIA,
   params=qm_p(0), mp=mob_mp, ev='quatmobility')
op('m_quat_mob_deriv', 'quat_mob_deriv', [FS('phi', gen=iphi, scale=4, ng=0)], [FS('mob', fixed_ng=True, scale=SS, rnd=True)], ('phi', 'phase_scratch'), ('mob', None), vias=VIA,
   params=qm_p(1), mp=mob_mp, ev='quatmobderiv')


def arr_p(r, ctx):
    r.lp['n'] = 4
    r.lp['k'] = r.rng.choice([0, 1, 2]); r.lp['m0'] = r.rng.randint(1, 5); r.lp['all'] = 0
    r.lp['mn'] = r.rng.choice([r.lp['m0'], 0, 1])
    r.q0 = r.lp['k'] * 2 * R * LN2
    r.S = 4 ** r.lp['k']


def all_p(r, ctx):
    arr_p(r, ctx)
    r.lp['all'] = 1; r.S = 1


TT = lambda: FS('temp', gen=gi(1, 2), ng=0)
op('m_phase_mob', 'phase_mob', [], [FS('mob', fixed_ng=True)], None, ('mob', 'phase_mobility'), vias=('direct', 'simple'), params=all_p,
   mp=lambda r: {'phi_mobility': float(r.lp['m0'])}, ev='phasemob')
op('m_phase_mob_T', 'phase_mob_T', [TT()], [FS('mob', scale=SS, rnd=True)], ('temp', None), ('mob', None), params=arr_p,
   mp=lambda r: {'phi_mobility': float(r.lp['m0']), 'q0_phi_mobility': r.q0}, ev='phasemob')
op('m_eta_mob', 'eta_mob', [FS('phi', gen=iphi, scale=4), TT()], [FS('mob', fixed_ng=True, scale=lambda r: 1024 * r.S, rnd=True)], ('phi', 'phase_scratch'), ('mob', 'eta_mobility'), vias=VIA,
   ids={'temperature': 'temp'}, params=arr_p, ev='etamob',
   mp=lambda r: {'epsilon_eta': 1., 'eta_mobility': float(r.lp['m0']), 'min_eta_mobility': float(r.lp['mn']), 'q0_eta_mobility': r.q0})


def coef(r):
    return {'epsq': r.p['eps'], 'floor': r.p['floor'], 'floor_type': r.p['ft'], 'H': r.p['mis'] / 2, 'interp1': r.p['p1'], 'interp2': r.p['p2'], 'avg': r.p['avg']}


op('m_facecoef', 'facecoef', CI, [FS('fc', 's', scale=24 * 8 ** 5)], None, ('fc', None), params=fc_p, setup=fc_set, more=coef, ev='facecoef')
op('m_dcoef', 'dcoef', CI[:2] + [FS('grad', 's', depth=kgrad.SG, fixed_ng=True)], [FS('fc', 's', depth=2, scale=24 * 8 ** 5, fixed_ng=True)], None, ('fc', None), params=fc_p, setup=fc_set,
   more=coef, ev='dcoef')
OPS = ['m_quat_mob', 'm_quat_mob_deriv', 'm_phase_mob', 'm_phase_mob_T', 'm_eta_mob', 'm_facecoef', 'm_dcoef']
