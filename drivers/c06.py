"""interpolation functions, wells, averages, index maps"""
from kern import *
MODULE = 'TraceFunc'
DIMS = (2,)
MC = [('MCFunc', 'MCFunc8'), ('MCFunc', 'MCFunc20', 'thorough')]
ASSUMPTIONS = ['functions are pure: a call depends on its arguments only',
               'rational arguments K/N; between grid points the value is fixed by polynomial degree']
NAMES = {'q': ['q', 'quadratic'], 'p': ['p', 'pbg'], 'h': ['h', 'harmonic'], 'w': ['w', 'wang_sintering'],
         'l': ['l', 'linear'], '3': ['3'], 'c': ['c', 'constant'], 'm': ['m', 'moelans2011'], 's': ['s', 'smooth']}


def drive(ctx):
    L = ctx.libs[2]
    r = ctx.rng
    I, D1, D2 = (lambda f: (lambda x, t: L.fn(f, float(x), t)))('interp_func'), \
        lambda x, t: L.fn('deriv_interp_func', float(x), t), lambda x, t: L.fn('second_deriv_interp_func', float(x), t)
    Ns = [8, 16, 12, 7, 24] + ([10, 20, 25, 32, 28] if ctx.thorough else [])
    for N in Ns:
        ks = list(range(-N, 2 * N + 1)) if N <= 16 else list(range(-4, N + 5))
        for t in 'qphwl3c':
            for nm in NAMES[t]:
                ctx.t.scenario()
                ctx.t.ev('interp', t=t, n=N, k=ks, v0=[enc(I(k / N, nm), N ** 5) for k in ks],
                         v1=[enc(D1(k / N, nm), N ** 4) for k in ks],
                         v2=[] if t == '3' else [enc(D2(k / N, nm), N ** 3) for k in ks])
        ctx.t.scenario()
        ks = list(range(-4, N + 5))
        ctx.t.ev('interp_m', n=N, k=ks, v0=[encr(I(k / N, 'moelans'), 4096) for k in ks],
                 v1=[encr(D1(k / N, 'moelans'), 4096) for k in ks])
        for t in 'ds':
            ctx.t.scenario()
            ks = list(range(-N, 2 * N + 1))
            ctx.t.ev('well', t=t, n=N, k=ks,
                     v0=[enc(L.fn('well_func', k / N, NAMES2[t]), N ** 4) for k in ks],
                     v1=[enc(L.fn('deriv_well_func', k / N, NAMES2[t]), N ** 3) for k in ks],
                     v2=[enc(L.fn('second_deriv_well_func', k / N, NAMES2[t]), N ** 2) for k in ks])
        ctx.t.scenario()
        ks = list(range(-N, 2 * N + 1))
        ctx.t.ev('ratio', n=N, k=ks,
                 v0=[enc(L.fn('interp_ratio_func', k / N, 'pbg', 'linear'), N ** 4) for k in ks],
                 v1=[enc(L.fn('compl_interp_ratio_func', k / N, 'pbg', 'linear'), N ** 4) for k in ks],
                 one=[enc(L.fn('interp_ratio_func', k / N, t, t)) for k in ks for t in [r.choice('lphq')]],
                 onec=[enc(L.fn('compl_interp_ratio_func', k / N, t, t)) for k in ks for t in [r.choice('lphq')]])
    for N in (64, 100):
        ks = list(range(0, 2 * N + 1))
        neg = [-k / 7 for k in range(1, 20)]
        ctx.t.scenario()
        ctx.t.ev('interp_s', n=N, k=ks, v0=[encr(I(k / N, 's'), 2 ** 24) for k in ks],
                 v1=[encr(D1(k / N, 's'), 2 ** 24) for k in ks],
                 neg=[encr(I(x, 's'), 2 ** 24) for x in neg], dneg=[encr(D1(x, 's'), 2 ** 24) for x in neg])
    A = lambda a, b, t: L.fn('average_func', float(a), float(b), t)
    dA = lambda a, b, t: L.fn('deriv_average_func', float(A(a, b, t)), float(b) if False else float(a), t)
    # derivative of the average with respect to one argument: called with (average, that argument)
    for _ in range(ctx.n(10, 100)):
        N = r.choice([1, 4, 16])
        ks = [r.randint(-3, 30) for _ in range(30)]
        ms = [r.randint(-3, 30) for _ in range(30)]
        ctx.t.scenario()
        ctx.t.ev('average', n=N, k=ks, m=ms,
                 va=[enc(A(a / N, b / N, 'arithmetic'), 2 * N) for a, b in zip(ks, ms)],
                 da=[enc(dA(a / N, b / N, 'arithmetic'), 2) for a, b in zip(ks, ms)],
                 vh=[encr(A(a / N, b / N, 'harmonic') * N, 16384) for a, b in zip(ks, ms)],
                 dh=[encr(dA(a / N, b / N, 'harmonic') if a or A(a / N, b / N, 'h') else 0., 16384) for a, b in zip(ks, ms)])
    ks = [a for a in range(-19, 2) for b in range(-19, 2)]
    ms = [b for a in range(-19, 2) for b in range(-19, 2)]
    ctx.t.scenario()
    ctx.t.ev('avgtiny', n=1, k=ks, m=ms,
             z=[1 if A(1.0 * 10. ** a * 1.0000001, 10. ** b * 1.0000001, 'harmonic') == 0. else 0 for a, b in zip(ks, ms)])
    for N in (16, 20000, 1000, 100000):
        ks = [k for k in range(-40, 41)]
        s = 1 if N == 16 else 1
        sc = 64 if N <= 100000 else 1
        ctx.t.scenario()
        ctx.t.ev('liminv', n=N, k=ks, sc1=sc, v0=[encr(L.fn('limitedinverse', k / N), sc) for k in ks])
    import ctypes as C
    def ifn(name, i, j):
        f = getattr(L.l, name + '_')
        f.restype = C.c_int
        L.calls += 1
        return f(C.byref(C.c_int(i)), C.byref(C.c_int(j)))
    ctx.t.scenario()
    ctx.t.ev('stiffness', n=1, s2=[[ifn('single_index_stiffness2d', i, j) for j in (1, 2)] for i in (1, 2)],
             s3=[[ifn('single_index_stiffness3d', i, j) for j in (1, 2, 3)] for i in (1, 2, 3)],
             st2=[[ifn('storage_index_stiffness2d', i, j) for j in range(1, 4)] for i in range(1, 4)],
             st3=[[ifn('storage_index_stiffness3d', i, j) for j in range(1, 7)] for i in range(1, 7)])
    ks = [r.randint(-99, 99) for _ in range(50)]
    ms = [r.randint(-99, 99) for _ in range(50)]
    L.l.arrop_mul.restype = L.l.arrop_add.restype = C.c_double
    f = lambda g, a, b: enc(g(C.c_double(a), C.c_double(b)))
    ctx.t.scenario()
    ctx.t.ev('arrop', n=1, k=ks, m=ms, mul=[f(L.l.arrop_mul, a, b) for a, b in zip(ks, ms)],
             add=[f(L.l.arrop_add, a, b) for a, b in zip(ks, ms)])


NAMES2 = {'d': 'double', 's': 'single'}
