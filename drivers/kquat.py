"""orientation kernels with crystal symmetry"""
from kern import *
Q64 = 2 ** 0 * math.pi / 128.0     # a 64th of a quarter turn

_tab = {}


def table(lib, n):
    """operation table of the code, read through its action on the identity"""
    if (id(lib), n) in _tab:
        return _tab[(id(lib), n)]
    N = 48 if n == 4 else 4 if n == 2 else 9
    t, c = [], []
    for sgn, o in ((1, t), (-1, c)):
        for k in range(1, N + 1):
            q = np.zeros(n)
            if n > 1:
                q[0] = 1
            iq = np.array([sgn * k], dtype=np.int32)
            out = np.zeros(n)
            lib.call('quatsymmrotate', q, iq, out, n)
            o.append([float(x) for x in out])
    _tab[(id(lib), n)] = (t, c)
    return t, c


def sgns(v):
    return [0 if abs(x) < 1e-9 else (1 if x > 0 else -1) for x in v]


def qparams(depths=(1, 2, 4), exactp=0.5):
    def f(r, ctx):
        d = r.p['depth'] = r.lp['depth'] = r.rng.choice(depths)
        lib = ctx.libs[r.dim]
        r.lp['tab'] = [sgns(x) for x in table(lib, d)[0]] if d > 1 else []
        r.lp['tab1'] = [round(x[0] / Q64) for x in table(lib, 1)[0]]
        ex = r.rng.random() < exactp or d != 4
        ids = [i + 1 for i, t in enumerate(r.lp['tab']) if not ex or sum(map(abs, t)) != 2] if d > 1 else list(range(1, 10))
        r.p['ids'] = ids
        r.lp['tol'] = 0 if ex else 12
        r.lp['tolc'] = 0 if ex else 800
    return f


DEP = lambda r: r.p['depth']


def giq(r, ctx):
    # all operations appear; identity and repeated ones too
    return lambda *a: r.rng.choice(r.p['ids']) if r.rng.random() < 0.8 else 1


def gq(r, ctx):
    if r.p['depth'] == 1:
        return lambda *a: r.rng.randint(-200, 200) * Q64
    return ctx.ints(-6, 6)


def gdf(r, ctx):
    return lambda *a: 2. * r.rng.randint(-4, 4)


def sq(r):
    return None


SC = lambda k: (lambda r: k if r.p['depth'] > 1 else 1 / Q64)


K('quatdiffs_symm', 'quatdiffs_symm', [FS('q', depth=DEP, ng=1, need=boxn(1), gen=gq, scale=SC(1)), FS('iq', 's', ng=1, need=boxn(1), integer=True, gen=giq)],
  [FS('diff', 's', depth=DEP, ng=1, scale=SC(1024), rnd=True)],
  lambda r: [*box(r), r.p['depth'], r.f['q'], ng(r, 'q'), r.f['diff'], ng(r, 'diff'), r.f['iq'], ng(r, 'iq')],
  params=qparams())
K('quatdiffs_symm_new', 'quatdiffs_symm_new', [FS('q', depth=DEP, ng=1, need=boxn(1), gen=gdf), FS('iq', 's', ng=1, need=boxn(1), integer=True, gen=giq)],
  [FS('diff', 's', depth=DEP, ng=1, scale=SC(1024), rnd=True)],
  lambda r: [*box(r), r.p['depth'], r.f['q'], ng(r, 'q'), r.f['diff'], ng(r, 'diff'), r.f['iq'], ng(r, 'iq')],
  params=qparams((2, 4)), dims=(2,))
K('quatgrad_cell_symm', 'quatgrad_cell_symm', [FS('diff', 's', depth=DEP, gen=gdf), FS('iq', 's', integer=True, gen=giq)],
  [FS('grad', 'c', depth=lambda r: (r.p['depth'], r.dim), scale=2048, rnd=True)],
  lambda r: [*box(r), r.p['depth'], r.h, r.f['diff'], ng(r, 'diff'), *comps(r.f['grad']), ng(r, 'grad'), r.f['iq'], ng(r, 'iq')],
  params=qparams())
_side = lambda r: [*box(r), r.p['depth'], r.h, r.f['diff'], ng(r, 'diff'), *comps(r.f['grad']), ng(r, 'grad'), r.f['iq'], ng(r, 'iq')]
K('quatgrad_side_symm', 'quatgrad_side_symm',
  [FS('diff', 's', depth=DEP, ng=1, need=star(1), gen=gdf), FS('iq', 's', ng=1, integer=True, gen=giq)],
  [FS('grad', 's', depth=lambda r: (r.p['depth'], r.dim), scale=4096, rnd=True)], _side, params=qparams())
K('quatgrad_side_symm_iso', 'quatgrad_side_symm_isotropic',
  [FS('diff', 's', depth=DEP, ng=1, need=boxn(1), gen=gdf), FS('iq', 's', ng=1, integer=True, gen=giq)],
  [FS('grad', 's', depth=lambda r: (r.p['depth'], r.dim), scale=12288, rnd=True)], _side, params=qparams(), dims=(2,))


def initrot(r, ctx):
    return lambda *a: r.rng.choice([0, 1, 1, 2, 7, 33, 48, -1, -5, -48, 49, 100, -77, 4, 9])


def gqnz(r, ctx):
    if r.p['depth'] == 1:
        return lambda *a: r.rng.randint(-300, 300) * Q64
    pool = {}

    def f(*a):
        # no zero quaternions: component 0 odd
        m = a[-1]
        v = r.rng.randint(-3, 3)
        return float(v if m else 2 * v + 1)
    return f


K('quat_symm_rotation', 'quat_symm_rotation', [FS('q', depth=DEP, ng=1, need=boxn(1), gen=gqnz, scale=SC(1))],
  [FS('rot', 's', ng=1, integer=True, init=initrot)],
  lambda r: [*box(r), r.f['q'], ng(r, 'q'), r.p['depth'], r.f['rot'], ng(r, 'rot')], params=qparams())
K('quat_fundamental', 'quat_fundamental', [], [FS('q', depth=DEP, ng=0, init=gqnz, scale=SC(1024), prescale=SC(1), rnd=True)],
  lambda r: [*box(r), r.f['q'].fs[0], *fb(r.f['q'].fs[0]), r.p['depth']], params=qparams())


def gunitq(r, ctx):
    n = r.p['depth']
    st = {}

    def f(c, m):
        if m == 0 or c not in st:
            if n == 1:
                st[c] = [float(r.rng.randint(-3, 3))]
            else:
                v = [0] * n
                k = r.rng.choice([1, 2, 4] if n == 4 else [1, 2])
                for i in r.rng.sample(range(n), k):
                    v[i] = r.rng.choice([-1., 1.]) 
                st[c] = v
        return st[c][m]
    return f


def h_small(r, ctx):
    pass


K('correctrhs', 'correctrhsquatforsymmetry',
  [FS('ns', 's', depth=DEP, gen=gdf, ng=0), FS('sy', 's', depth=DEP, gen=gdf, same='ns'),
   FS('quat', depth=DEP, gen=gunitq), FS('fc', 's', gen=gi(-1, 2)), FS('mob', gen=gi(0, 2)),
   FS('iq', 's', integer=True, gen=giq)],
  [FS('rhs', depth=DEP, init=gi(-5, 5), scale=1024, prescale=1, rnd=True)],
  lambda r: [*box(r), r.p['depth'], r.h, r.f['ns'], r.f['sy'], ng(r, 'ns'), r.f['rhs'], ng(r, 'rhs'),
             r.f['quat'], ng(r, 'quat'), r.f['fc'], ng(r, 'fc'), r.f['mob'], ng(r, 'mob'), r.f['iq'], ng(r, 'iq')],
  params=qparams(), hexp=(0, 1))

ALL = ['quatdiffs_symm', 'quatdiffs_symm_new', 'quatgrad_cell_symm', 'quatgrad_side_symm', 'quatgrad_side_symm_iso',
       'quat_symm_rotation', 'quat_fundamental', 'correctrhs']
