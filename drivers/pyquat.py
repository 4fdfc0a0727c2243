"""scenarios for utils/quat.py"""
import importlib.util, math, os, sys, io, contextlib
import numpy as np
from amk import enc
from build import REPO


def load(name):
    p = os.path.join(REPO, 'utils', name + '.py')
    s = importlib.util.spec_from_file_location('ampe_' + name, p)
    m = importlib.util.module_from_spec(s)
    sys.dont_write_bytecode = True
    with contextlib.redirect_stdout(io.StringIO()):
        s.loader.exec_module(m)
    return m


BAD = [1073741831]


def vec(v, k=1.):
    if v is None:
        return BAD
    try:
        return [enc(x, k) for x in v]
    except TypeError:
        return BAD


def three(v):
    return [vec(v), vec(v, math.sqrt(2.)), vec(v, 2.)]


def run(ctx, n):
    r = ctx.rng
    Q = load('quat')

    def call(f, *a):
        with contextlib.redirect_stdout(io.StringIO()):
            try:
                return True, f(*a)
            except Exception:
                return False, None

    def iq(l, m=5):
        while True:
            v = [r.randint(-m, m) for _ in range(l)]
            if any(v):
                return v
    A = lambda v: np.array(v, float)
    # tables
    for l in (4, 2, 1):
        ctx.t.scenario()
        ok, N = call(Q.getNumberSymmetryRotations, l)
        u = (lambda v: three(v)) if l > 1 else (lambda v: [[enc(v / math.pi, 2)]] * 3)
        rows = []
        for i in range(N or 0):
            a, b, c = call(Q.getQuatSymmetryRotation, i, l), call(Q.getQuatSymmetryRotationConjugateIdx, i, l), call(Q.getQuatSymmetryRotationConjugate, i, l)
            if not (a[0] and b[0] and c[0]):
                ok = False
                break
            rows.append([u(a[1]), int(b[1]), u(c[1])])
        ctx.t.ev('py_table', l=l, n=int(N or 0), ok=ok, rows=rows)
    G = [v for v in np.ndindex(3, 3, 3, 3)]
    G = [[x - 1 for x in v] for v in G]
    G = [v for v in G if sum(1 for x in v if x) in (1, 2, 4)]
    S = [[1, 0], [0, 1], [-1, 0], [0, -1]]
    for _ in range(n):
        ctx.t.scenario()
        l = r.choice([4, 4, 2])
        a, b = iq(l), iq(l)
        mode = r.choice(['ret', 'out', 'a', 'b'])
        x, y = A(a), A(b)
        if mode == 'ret':
            ok, o = call(Q.multiplyQuat, x, y)
        else:
            o = {'out': A([9] * l), 'a': x, 'b': y}[mode]
            ok, _x = call(Q.multiplyQuat, x, y, o)
        ctx.t.ev('py_mul', a=a, b=b, mode=mode, ok=ok, out=vec(o), a2=vec(x), b2=vec(y))
        if l == 4 or l == 2:
            x = A(a)
            ok, o = call(Q.rotateQuat, x, A(b))
            ctx.t.ev('py_mul', a=a, b=b, mode='ret', ok=ok, out=vec(o), a2=vec(x), b2=b)
        # conjugate, sums
        x, o = A(a), A([7] * l)
        ok, o1 = call(Q.conjugateQuat, x)
        ok2, _x = call(Q.conjugateQuat, x, o)
        ctx.t.ev('py_conj', a=a, ok=ok and ok2, out=vec(o1), out2=vec(o), a2=vec(x))
        o, o2, o3 = A([7] * l), A([7] * l), A([7] * l)
        ok = call(Q.addQuat, A(a), A(b), o)[0] and call(Q.subtractQuat, A(a), A(b), o2)[0] and call(Q.copyQuat, A(a), o3)[0]
        ok4, d = call(Q.duplicateQuat, x)
        if ok4:
            d[0] += 1
        ctx.t.ev('py_lin', a=a, b=b, ok=ok and ok4, add=vec(o), sub=vec(o2), copy=vec(o3), dup=vec(d), a2=vec(x))
        # magnitude, normalisation
        ok, m = call(Q.quatMagnitude, A(a))
        s = r.choice([1., 1., 2. ** r.randint(-30, 30), 0.])
        x = A(a) * s
        ok2, _x = call(Q.normalizeQuat, x)
        rt = math.sqrt(sum(v * v for v in a))
        okc, mk = call(Q.makeNormalizedQuat if l == 4 else Q.makeNormalizedQuat2, *a)
        ctx.t.ev('py_norm', a=a, zero=s == 0., ok=ok and ok2 and okc, m2=enc(m * m if ok else 0), n=vec(x, rt), mk=vec(mk, rt))
        # differences under a given rotation
        g = r.choice(G if l == 4 else S)
        gn = math.sqrt(sum(v * v for v in g))
        ok, o = call(Q.quatDiff, A(a), A(b), A(g) / gn)
        c = 1. - o[0] ** 2 / 2. if ok else 0.
        na, nb = sum(v * v for v in a), sum(v * v for v in b)
        ctx.t.ev('py_diff', a=a, b=b, g=g, ok=ok, c=enc(math.copysign(c * c, c) * na * nb * 4, 1, 1e-6), q=vec(o[1] if ok else None, gn))
        # closest equivalent orientation
        N = 48 if l == 4 else 4
        if r.random() < .6:     # near one another up to a rotation
            k = r.choice(G if l == 4 else S)
            if l == 4:
                m = Q_mul(a, k)
            else:
                m = [a[0] * k[0] - a[1] * k[1], a[0] * k[1] + a[1] * k[0]]
            if r.random() < .7:
                m = [4 * v for v in m]
                m[r.randrange(l)] += r.choice([-2, -1, 1, 2])
            b = m if any(m) else b
            a = a
        i = r.choice([0, 0, r.randrange(N), -r.randrange(N), N + r.randint(1, 5), -N - r.randint(1, 5)])
        x, y = A(a), A(b)
        ok, o = call(Q.quatSymm, x, y, i)
        ctx.t.ev('py_symm', a=a, b=b, ok=ok, out=three(o), a2=vec(x), b2=vec(y))
        if l == 4:
            ok, o = call(Q.quatMakeFundamental, A(b))
            ctx.t.ev('py_symm', a=[1, 0, 0, 0], b=b, ok=ok, out=three(o), a2=[1, 0, 0, 0], b2=b)
        # angles, units of pi/8
        p, q = r.randint(-16, 16), r.randint(-40, 40) if r.random() < .3 else r.randint(-16, 16)
        i = r.choice([0, 0, r.randrange(9), -r.randrange(9), 9 + r.randint(1, 5)])
        ok, o = call(Q.quatSymm1, p * math.pi / 8, q * math.pi / 8, i)
        ctx.t.ev('py_symm1', a=p, b=q, ok=ok, out=enc(o / math.pi * 8) if ok and o is not None else BAD[0])
        # angle from a chord
        k = r.randint(0, 24)
        d = 2 * math.sin(k * math.pi / 48)
        big = r.random() < .2
        ok, o = call(Q.quatAngle, 2.5 if big else d)
        ok2, o2 = call(Q.quatAngle2, 2.5 if big else d)
        ctx.t.ev('py_angle', k=k, big=big, ok=ok and ok2, four=enc(o if big else o / math.pi * 48, 1, 1e-5) if ok else 0,
                 two=enc(o2 if big else o2 / math.pi * 48, 1, 1e-5) if ok2 else 0)
        # random orientations: unit length, on the grid of orientations
        us = [r.random() for _ in range(3)]
        it = iter(us)
        save = Q.random.uniform
        Q.random.uniform = lambda *_: next(it)
        t = r.randint(-12, 12)
        try:
            ok, o = call(Q.getQuatRandom, t * math.pi / 12, l)
        finally:
            Q.random.uniform = save
        if l == 4:
            ctx.t.ev('py_rand', l=l, ok=ok, n=enc(sum(v * v for v in o), 1, 1e-6) if ok else 0, rest=[])
        else:
            ctx.t.ev('py_rand', l=l, ok=ok, n=enc(math.atan2(o[1], o[0]) / math.pi * 12, 1, 1e-5) % 24 if ok else 0, t=t,
                     rest=[enc(math.hypot(o[0], o[1]), 1, 1e-6)] + vec(o[2:]) if ok else [])


def Q_mul(a, b):
    return [a[0] * b[0] - a[1] * b[1] - a[2] * b[2] - a[3] * b[3], a[0] * b[1] + a[1] * b[0] + a[2] * b[3] - a[3] * b[2],
            a[0] * b[2] + a[2] * b[0] + a[3] * b[1] - a[1] * b[3], a[0] * b[3] + a[3] * b[0] + a[1] * b[2] - a[2] * b[1]]
