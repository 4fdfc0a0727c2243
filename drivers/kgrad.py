"""kernels: differences, gradients, Laplacian, moduli, averages"""
from kern import *


def sidetrans(n, starlike=False):
    """sides of direction d: ghosts only transversally (sum over d handled by caller's hi)"""
    return star(n) if starlike else boxn(n)


def depthp(lo=1, hi=4):
    def f(r, ctx):
        r.p['depth'] = r.rng.choice([1, 2, 4])
        r.lp['depth'] = r.p['depth']
    return f


D = lambda r: r.p['depth']

K('diffs', 'diffs', [FS('v', ng=1, need=star(1))], [FS('diff', 's', ng=1)],
  lambda r: [*box(r), r.f['v'], ng(r, 'v'), r.f['diff'], ng(r, 'diff')])
# NB: diffs also fills the transverse ghost sides, hence reads the full 1-ghost box
REG['diffs'].ins[0].need = boxn(1)

K('quatdiffs', 'quatdiffs', [FS('q', depth=D, ng=1, need=boxn(1))], [FS('diff', 's', depth=D, ng=1)],
  lambda r: [*box(r), r.p['depth'], r.f['q'], ng(r, 'q'), r.f['diff'], ng(r, 'diff')], params=depthp())

K('grad_cell', 'grad_cell', [FS('diff', 's')], [FS('grad', 'c', depth='dim', scale=2)],
  lambda r: [*box(r), r.f['diff'], ng(r, 'diff'), r.h, *comps(r.f['grad']), ng(r, 'grad')])

K('quatgrad_cell', 'quatgrad_cell', [FS('diff', 's', depth=D)],
  [FS('grad', 'c', depth=lambda r: (r.p['depth'], r.dim), scale=2)],
  lambda r: [*box(r), r.p['depth'], r.h, r.f['diff'], ng(r, 'diff'), *comps(r.f['grad']), ng(r, 'grad')],
  params=depthp())

K('grad_side', 'grad_side', [FS('diff', 's', ng=1, need=star(1))],
  [FS('grad', 's', depth='dim', scale=4)],
  lambda r: [*box(r), r.f['diff'], ng(r, 'diff'), r.h, *comps(r.f['grad']), ng(r, 'grad')])

K('grad_side_isotropic', 'grad_side_isotropic', [FS('diff', 's', ng=1, need=star(1))],
  [FS('grad', 's', depth='dim', scale=12)],
  lambda r: [*box(r), r.f['diff'],
             *bx([l - ng(r, 'diff') for l in r.lo], [h + ng(r, 'diff') for h in r.hi]), r.h,
             *comps(r.f['grad']),
             *bx([l - ng(r, 'grad') for l in r.lo], [h + ng(r, 'grad') for h in r.hi])], dims=(2,))

K('quatgrad_side', 'quatgrad_side', [FS('diff', 's', depth=D, ng=1, need=star(1))],
  [FS('grad', 's', depth=lambda r: (r.p['depth'], r.dim), scale=4)],
  lambda r: [*box(r), r.p['depth'], r.h, r.f['diff'], ng(r, 'diff'), *comps(r.f['grad']), ng(r, 'grad')],
  params=depthp())

K('quatgrad_side_isotropic', 'quatgrad_side_isotropic',
  [FS('diff', 's', depth=D, ng=1, need=boxn(1))],
  [FS('grad', 's', depth=lambda r: (r.p['depth'], r.dim), scale=12)],
  lambda r: [*box(r), r.p['depth'], r.h, r.f['diff'], ng(r, 'diff'), *comps(r.f['grad']), ng(r, 'grad')],
  params=depthp(), dims=(2,))


def lap_p(r, ctx):
    r.p['coeff'] = float(r.rng.randint(-3, 5)); r.lp['coeff'] = int(r.p['coeff'])


K('laplacian', 'laplacian', [FS('field', ng=1, need=star(1), gen=gi(-9, 9))], [FS('rhs', pre=False)],
  lambda r: [*box(r), r.h, r.p['coeff'], r.f['field'], ng(r, 'field'), r.f['rhs'], ng(r, 'rhs')], params=lap_p)

K('side2cell', 'side2cell', [FS('s', 's')], [FS('c', scale=12)],
  lambda r: [*box(r), r.f['s'], ng(r, 's'), r.f['c'], ng(r, 'c')])


def gpyth_sg(r, ctx):
    return None


def fill_pyth(name, per_side=True, norm=None):
    """gradient arrays whose full (depth x dim) vectors have integer norm"""
    def f(r, ctx):
        for fld in r.f[name].fs:
            for c in cells(fld.lo, fld.hi):
                v = pyth(r.rng, int(np.prod(fld.extra)), norm=norm)
                fld.a[fld.idx(c)] = np.array(v, dtype=float).reshape(fld.extra)
    return f


SG = lambda r: (r.p['depth'], r.dim)

K('mod_sides', 'quatgrad_modulus_from_sides', [FS('grad', 's', depth=SG)], [FS('mod', scale=4)],
  lambda r: [*box(r), r.p['depth'], r.f['grad'], ng(r, 'grad'), r.f['mod'], ng(r, 'mod')],
  params=depthp(), setup=fill_pyth('grad'), dims=(2,))


def harm_p(r, ctx):
    depthp()(r, ctx)
    r.p['floor_type'] = r.rng.choice(['max', 'tanh', 'sqrt'])
    r.p['floor'] = 0.0
    r.lp['floor2'] = 0
    # with a smooth ('s') floor: gradients are zero and the floor alone regularises
    if r.p['floor_type'] == 'sqrt':
        r.p['floor'] = float(r.rng.choice([1, 2, 4]))
        r.lp['floor2'] = int(r.p['floor']) ** 2
    r.lp['zero'] = 1 if r.p['floor_type'] == 'sqrt' else 0


def harm_setup(r, ctx):
    if r.p['floor_type'] == 'sqrt':
        for fld in r.f['grad'].fs:
            fld.a[...] = 0.0
    else:
        fill_pyth('grad', norm=(1, 2, 4))(r, ctx)


K('mod_harm', 'quatgrad_modulus_from_sides_harmonic', [FS('grad', 's', depth=SG)],
  [FS('mod', scale=16, post=lambda x: 1.0 / x)],
  lambda r: [*box(r), r.p['depth'], r.f['grad'],
             *bx([l - ng(r, 'grad') for l in r.lo], [h + ng(r, 'grad') for h in r.hi]),
             r.f['mod'], *fb(r.f['mod'].fs[0]), r.p['floor_type'], r.p['floor']],
  params=harm_p, setup=harm_setup, dims=(2,))

K('mod_compact', 'quatgrad_modulus_from_sides_compact', [FS('grad', 's', depth=SG)],
  [FS('mod', scale=2, post=lambda x: np.where(x >= 0, x * x, -1e6))],
  lambda r: [*box(r), r.p['depth'], r.f['grad'], ng(r, 'grad'), r.f['mod'], ng(r, 'mod')], params=depthp())

K('mod_cell', 'quatgrad_modulus', [FS('grad', 'c', depth=SG)],
  [FS('mod', post=lambda x: np.where(x >= 0, x * x, -1e6))],
  lambda r: [*box(r), r.p['depth'], *comps(r.f['grad']), ng(r, 'grad'), r.f['mod'], ng(r, 'mod')], params=depthp())

K('quatavg', 'quatavg', [FS('q', depth=D, ng=1, need=star(1))], [FS('avg', depth=D, scale=8)],
  lambda r: [*box(r), r.p['depth'], r.f['q'], *fb(r.f['q'].fs[0]), r.f['avg'], *fb(r.f['avg'].fs[0])],
  params=depthp(), dims=(2,))


def smq_p(r, ctx):
    depthp()(r, ctx)
    r.p['thr'] = float(r.rng.randint(-1, 2)); r.lp['thr'] = int(r.p['thr'])


K('smoothquat', 'smoothquat',
  [FS('q', depth=D), FS('diff', 's', depth=D), FS('phase', gen=gi(-3, 3))],
  [FS('qout', depth=D, scale=24, init=gi(-2, 2))],
  lambda r: [*box(r), r.p['depth'], r.f['q'], ng(r, 'q'), r.f['qout'], ng(r, 'qout'), r.f['diff'], ng(r, 'diff'),
             r.f['phase'], ng(r, 'phase'), r.p['thr']], params=smq_p)


def vel_p(r, ctx):
    r.p['thr'] = float(r.rng.choice([1, 2, 3])); r.lp['thr'] = int(r.p['thr'])


def vel_setup(r, ctx):
    g, pd = r.f['grad'].fs[0], r.f['phidot'].fs[0]
    t = r.lp['thr']
    opts = [v for v in [(0, 0, 0), (4, 0, 0) if t == 3 else (0, 0, 0), (2, 2, 0) if t == 1 else (0, 0, 0),
                        (1, 2, 0) if t == 2 else (0, 0, 0), (6, 2, 0) if t == 3 else (0, 0, 0),
                        (3, 6, 0) if t == 2 else (0, 0, 0), (4, 8, 0) if t == 1 else (0, 0, 0),
                        (1, 3, 5) if t == 1 and r.dim == 3 else (0, 0, 0),
                        (4, 5, 6) if t == 2 and r.dim == 3 else (0, 0, 0)]]
    for c in cells(g.lo, g.hi):
        v = list(r.rng.choice(opts)[:r.dim])
        r.rng.shuffle(v)
        v = [x * r.rng.choice([-1, 1]) for x in v]
        g.a[g.idx(c)] = v
        n = math.isqrt(sum(x * x for x in v) + t * t)
        pd.set(c, float(n * r.rng.randint(-4, 4)))


K('velocity', 'velocity', [FS('grad', depth='dim', fixed_ng=True), FS('phidot', fixed_ng=True)],
  [FS('vel', fixed_ng=True)],
  lambda r: [*box(r), r.p['thr'], *comps(r.f['grad']), r.f['phidot'], r.f['vel']], params=vel_p, setup=vel_setup)

ALL = ['diffs', 'quatdiffs', 'grad_cell', 'quatgrad_cell', 'grad_side', 'grad_side_isotropic', 'quatgrad_side',
       'quatgrad_side_isotropic', 'laplacian', 'side2cell', 'mod_sides', 'mod_harm', 'mod_compact', 'mod_cell',
       'quatavg', 'smoothquat', 'velocity']
