"""energy kernels"""
from kern import *
from krhs import POLY, lawname, gphi, SN, eps_p, aniso2_p, aniso2_set, aniso3_p, aniso3_set


def gw(r, ctx):
    return lambda *a: float(r.rng.choice([0, 1, 1, 2]))


def tots(*names):
    def f(r, ctx):
        s = r.lp['S']
        return {n: [np.array([float(r.rng.randint(-3, 3))]), s if not r.p.get('rnd') else (s,)] for n in names}
    return f


SS = lambda r: r.lp['S']


def q_p(r, ctx):
    eps_p(1, 2)(r, ctx)
    r.lp['n'] = 4
    r.p['np'] = r.lp['np'] = r.rng.choice([1, 1, 2, 3]) if r.dim == 2 else 1
    r.p['depth'] = r.lp['depth'] = r.rng.choice([1, 2, 4])
    r.p['avg'] = r.rng.choice('ah'); r.lp['avg'] = r.p['avg']
    r.p['avg'] = {'a': 'arithmetic', 'h': 'harmonic'}[r.p['avg']]
    r.p['floor_type'] = r.rng.choice(['max', 'tanh', 'sqrt'])
    r.p['floor'] = float(r.rng.choice([0, 1, 2])); r.lp['fl'] = int(r.p['floor']) if r.p['floor_type'] == 'sqrt' else 0
    for k in ('p1', 'p2'):
        r.lp[k] = r.rng.choice(POLY); r.p[k] = lawname(r, r.lp[k])
    r.lp['well'] = r.rng.choice('ds'); r.p['well'] = lawname(r, r.lp['well'])
    r.lp['w'] = r.rng.randint(1, 3); r.p['w'] = float(r.lp['w'])
    r.lp['misor'] = r.rng.choice([0, 1, 1, 2, -1]); r.p['misor'] = float(r.lp['misor'])
    e = r.rng.choice([2, 4]); r.p['epsq'] = float(e); r.lp['eq2'] = e * e // 2
    r.lp['per'] = r.rng.choice([0, 1, 1]); r.p['per'] = r.lp['per'] * r.rng.choice([1, 2, -1])
    r.lp['S'] = 12 * 8 ** 5
    r.p['aniso'] = 0.0 if r.rng.random() < .7 else -.5
    r.p['k'] = 4


def q_phi(r, ctx):
    if r.lp['avg'] == 'h':
        return lambda *a: r.rng.choice([.25, .75])
    return gphi(-1, 1)(r, ctx)


def q_set(r, ctx):
    n = r.p['depth'] * r.dim
    fl = r.lp['fl']
    for fld in r.f['gq'].fs:
        for c in cells(fld.lo, fld.hi):
            while True:
                v = [r.rng.randint(-2, 2) if r.rng.random() < .5 else 0 for _ in range(n)]
                m = sum(x * x for x in v) + fl * fl
                if math.isqrt(m) ** 2 == m and m <= 25:
                    break
            fld.a[fld.idx(c)] = np.array(v, dtype=float).reshape(fld.extra)


TOT = ('tot', 'phi_e', 'orient_e', 'qint_e', 'well_e')
qargs = lambda r: [*box(r), r.p['depth'], r.h, *r.f['gq'].fs, ng(r, 'gq'), r.f['phi'], ng(r, 'phi'), r.p['np'], r.f['quat'], ng(r, 'quat'),
                   r.p['eps'], r.p['epsq'], r.p['aniso'], r.p['k'], r.p['misor'], r.f['temp'], ng(r, 'temp'), r.p['w'], r.f['weight'],
                   *[r.s[t][0] for t in TOT], r.f['energy'], r.p['per'], 'pbg', r.p['well'], r.p['p1'], r.p['p2'], r.p['avg'],
                   r.p['floor_type'], r.p['floor']]
K('quatenergy', 'quatenergy',
  [FS('gq', 's', depth=lambda r: (r.p['depth'], r.dim)), FS('phi', depth=lambda r: r.p['np'], ng=1, need=star(1), gen=q_phi, scale=SN(1)),
   FS('quat', depth=lambda r: r.p['depth'], nolog=True), FS('temp', gen=gi(1, 3)), FS('weight', gen=gw, fixed_ng=True)],
  [FS('energy', init=gi(-3, 3), scale=SS, fixed_ng=True)], qargs, params=q_p, setup=q_set, scalars=tots(*TOT))


def an_p(r, ctx):
    q_p(r, ctx)
    (aniso2_p if r.dim == 2 else aniso3_p)(r, ctx)
    r.p['np'] = r.lp['np'] = r.rng.choice([1, 2])
    r.p['depth'] = r.lp['depth'] = r.p['qlen'] if r.dim == 2 else 4
    r.p['aniso'] = r.p['nu'] if r.dim == 2 else abs(r.p['e4'])
    r.lp['v'] = abs(r.lp['v'])
    r.p['k'] = r.p['k'] if r.dim == 2 else 4
    r.lp['k'] = r.p['k']
    r.lp['q'] = r.lp.get('q', 1)
    r.p['misor'] = 0.; r.lp['misor'] = 0
    r.lp['n'] = 1; r.lp['S'] = 1024
    r.lp['avg'] = 'a'; r.p['avg'] = 'a'
    r.p['rnd'] = True


def an_set(r, ctx):
    (aniso2_set if r.dim == 2 else aniso3_set)(r, ctx)
    for fld in r.f['gq'].fs:
        fld.a[...] = NAN


K('anisoenergy', 'quatenergy',
  [FS('gq', 's', depth=lambda r: (r.p['depth'], r.dim), nolog=True), FS('phi', depth=lambda r: r.p['np'], ng=1, need=star(1), gen=gi(-1, 2)),
   FS('quat', depth=lambda r: r.p['depth'], scale=lambda r: r.lp['q']), FS('temp', nolog=True), FS('weight', gen=gw, fixed_ng=True)],
  [FS('energy', init=gi(-3, 3), scale=SS, fixed_ng=True, rnd=True)], qargs, params=an_p, setup=an_set, scalars=tots(*TOT), hexp=(0, 1))


def b_p(r, ctx):
    r.lp['n'] = 8
    r.lp['h'] = r.rng.choice(POLY); r.p['h'] = lawname(r, r.lp['h'])
    r.lp['per'] = r.rng.choice([0, 1, 1]); r.p['per'] = r.lp['per'] * r.rng.choice([1, 2, -1])
    r.lp['S'] = 8 ** 5


K('bulkenergy', 'bulkenergy',
  [FS('phi', gen=gphi(), scale=SN(1)), FS('fl', gen=gi(-9, 9), fixed_ng=True), FS('fa', gen=gi(-9, 9), fixed_ng=True), FS('weight', gen=gw, fixed_ng=True)],
  [FS('energy', init=gi(-3, 3), scale=SS, fixed_ng=True)],
  lambda r: [*box(r), r.f['phi'], ng(r, 'phi'), r.f['fl'], r.f['fa'], r.f['weight'], r.s['tot'][0], r.s['free_e'][0], r.f['energy'],
             r.p['per'], r.p['h']], params=b_p, scalars=tots('tot', 'free_e'))


def te_p(r, ctx):
    r.lp['tm'] = r.rng.choice([1, 2, 8]); r.lp['la'] = r.rng.randint(1, 9)


K('tempenergy', 'temperature_energy', [FS('temp', gen=gi(0, 30))], [FS('fl', scale=8, fixed_ng=True)],
  lambda r: [*box(r), r.f['temp'], ng(r, 'temp'), r.f['fl'], float(r.lp['tm']), float(r.lp['la'])], params=te_p)


def pp_p(r, ctx):
    r.p['np'] = r.lp['np'] = r.rng.choice([1, 2, 3, 5])
    r.lp['gm'] = r.rng.randint(1, 3); r.lp['m'] = r.rng.randint(1, 3)
    r.lp['per'] = r.rng.choice([0, 1, 1]); r.p['per'] = r.lp['per'] * r.rng.choice([1, 2, -1])
    r.lp['S'] = 2


def pp_s(r, ctx):
    return {'tot': [np.array([float(r.rng.randint(-3, 3)) for _ in range(r.p['np'] ** 2)]), 2]}


K('phiphi', 'phiphi_interfacialenergy',
  [FS('phi', depth=lambda r: r.p['np'], gen=gi(-3, 3)), FS('weight', gen=gw, fixed_ng=True)],
  [FS('energy', init=gi(-3, 3), scale=2, fixed_ng=True)],
  lambda r: [*box(r), r.f['phi'], ng(r, 'phi'), r.p['np'], float(r.lp['gm']), float(r.lp['m']), r.f['weight'], r.f['energy'], r.s['tot'][0],
             r.p['per']], params=pp_p, scalars=pp_s)
ALL = ['quatenergy', 'anisoenergy', 'bulkenergy', 'tempenergy', 'phiphi']
