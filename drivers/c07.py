"""three-phase tilting functions, pair weights, triple well"""
from kern import *
import ctypes as C
MODULE = 'TraceFunc'
DIMS = (2,)
MC = [('MCFunc', 'MCFunc8'), ('MCFunc', 'MCFunc20', 'thorough')]
ASSUMPTIONS = ['Folch-Plapp/Moelans values checked at rational points of and around the simplex',
               'angle law of the pair weights to about 1e-2 in cos^2 (sum, order, symmetry to 2^-12)']


def drive(ctx):
    L = ctx.libs[2]
    r = ctx.rng
    fn = {}
    for n in ('tfp_g0', 'tfp_dg0dp0', 'tfp_dg0dp1', 'tmo_g0', 'tmo_dg0dp0', 'tmo_dg0dp1'):
        f = getattr(L.l, n)
        f.restype = C.c_double
        fn[n] = (lambda g: (lambda a, b, c: g(C.c_double(a), C.c_double(b), C.c_double(c))))(f)

    def w3(k, N):
        w = (C.c_double * 3)()
        L.l.w3pairs(C.c_double(k[0] / N), C.c_double(k[1] / N), C.c_double(k[2] / N), w)
        L.calls += 1
        return list(w)

    for N in ([8, 12, 10] + ([16, 7, 20] if ctx.thorough else [])):
        pts = [(a, b, N - a - b) for a in range(-2, N + 3) for b in range(-2, N + 3)]
        pts += [(r.randint(-2, N + 2), r.randint(-2, N + 2), r.randint(-2, N + 2)) for _ in range(60)]
        for i in range(0, len(pts), 50):
            ps = pts[i:i + 50]
            ctx.t.scenario()
            ctx.t.ev('folchplapp', n=N, k=ps,
                     v0=[enc(fn['tfp_g0'](*[x / N for x in p]), 4 * N ** 5) for p in ps],
                     v1=[enc(fn['tfp_dg0dp0'](*[x / N for x in p]), 2 * N ** 4) for p in ps],
                     v2=[enc(fn['tfp_dg0dp1'](*[x / N for x in p]), 4 * N ** 4) for p in ps])
            L.calls += 3 * len(ps)
            ctx.t.scenario()
            ctx.t.ev('triplewell', n=N, k=ps, v0=[enc(L.fn('deriv_triple_well_func', *[x / N for x in p]), 3 * N ** 3) for p in ps])
            if N <= 12:
                ps = [p for p in ps if any(p) ]
                ctx.t.scenario()
                ctx.t.ev('moelans', n=N, k=ps,
                         v0=[encr(fn['tmo_g0'](*[x / N for x in p]), 4096) for p in ps],
                         v1=[encr(fn['tmo_dg0dp0'](*[x / N for x in p]), 1024) for p in ps],
                         v2=[encr(fn['tmo_dg0dp1'](*[x / N for x in p]), 1024) for p in ps])
    perms = list(itertools_perms())
    N = 8
    for a in range(0, N + 1):
        for b in range(0, N + 1 - a):
            K = (a, b, N - a - b)
            if max(K) == N:
                continue
            ctx.t.scenario()
            ctx.t.ev('weights', n=N, k=K, perm=[[x + 1 for x in p] for p in perms],
                     w=[[encr(x, 4096) for x in w3([K[i] for i in p], N)] for p in perms])
    for _ in range(ctx.n(30, 200)):
        M = 10000
        i = r.randrange(3)
        top = r.choice([9901, 9950, 9999, 10000])
        rest = M - top
        x = r.choice([rest // 2, r.randint(0, rest), rest, 0]) if rest else 0
        k = [0, 0, 0]
        k[i] = top
        k[(i + 1) % 3] = x
        k[(i + 2) % 3] = rest - x
        kc = list(k)
        d = top - 9900
        kc[i] = 9900
        kc[(i + 1) % 3] += d / 2
        kc[(i + 2) % 3] += d / 2
        ctx.t.scenario()
        ctx.t.ev('weightsclamp', n=M, k=k, w=[encr(v, 65536) for v in w3(k, M)], wc=[encr(v, 65536) for v in w3(kc, M)])


def itertools_perms():
    import itertools
    return itertools.permutations(range(3))
