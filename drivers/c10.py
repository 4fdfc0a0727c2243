"""quaternion algebra and the crystal symmetry operations (point-wise)"""
from kern import *
from kquat import table, sgns, Q64
MODULE = 'TraceQuat'
DIMS = (2,)
MC = [('MCQuatG', 'MCQuatG'), ('MCQuat', 'MCQuat1'), ('MCQuat', 'MCQuat2', 'thorough')]
ASSUMPTIONS = ['integer orientations (directions with small integer components); irrational images to 2^-10']


def vec(x):
    return np.array([float(v) for v in x])


def drive(ctx):
    L, r, t = ctx.libs[2], ctx.rng, ctx.t
    tabs = {}
    for n in (4, 2):
        a, c = table(L, n)
        tabs[n] = [sgns(x) for x in a]
        t.scenario()
        t.ev('group', n=n, tab=[[encr(x, 1000) for x in v] for v in a], ctab=[[encr(x, 1000) for x in v] for v in c])
    a, c = table(L, 1)
    tab1 = [enc(v[0] / Q64) for v in a]
    t.scenario()
    t.ev('group1', n=1, tab=tab1, ctab=[enc(v[0] / Q64) for v in c])

    def icall(name, *args):
        L.call(name, *args)

    def findsymm(n, q1, q2, iq0):
        a, b = vec(q1), vec(q2)
        a0, b0 = a.copy(), b.copy()
        iq = np.array([iq0], dtype=np.int32)
        out = np.zeros(n)
        icall('quatfindsymm', a, b, iq, out, n)
        i = int(iq[0])
        rot, back = np.zeros(n), np.zeros(n)
        if 1 <= i <= len(tabs.get(n, range(9))):
            icall('quatsymmrotate', b.copy(), np.array([i], dtype=np.int32), rot, n)
            icall('quatsymmrotate', out.copy(), np.array([-i], dtype=np.int32), back, n)
        return i, out, rot, back, int((a == a0).all() and (b == b0).all())

    def S(v):
        return [encr(x, 1024) for x in v]

    N = ctx.n(350, 5000)
    for k in range(N):
        n = r.choice([4, 4, 4, 2])
        b = 3 if r.random() < .7 else 6
        while True:
            q1 = [r.randint(-b, b) for _ in range(n)]
            q2 = [r.randint(-b, b) for _ in range(n)]
            if r.random() < .4:   # near-symmetric pair
                tb = r.choice(tabs[n])
                q2 = [int(x) for x in _mul(q1, tb)]
                q2[r.randrange(n)] += r.choice([0, 1, -1])
            if any(q1) and any(q2):
                break
        iq0 = r.choice([0, 1, r.randint(1, len(tabs[n])), -r.randint(1, len(tabs[n])), 49, -49, 7])
        i, out, rot, back, keep = findsymm(n, q1, q2, iq0)
        t.scenario()
        t.ev('findsymm', n=n, q1=q1, q2=q2, iq=i, iqr=iq0, q2p=S(out), rot=S(rot), back=S(back), keep=keep, tab=tabs[n])
    for k in range(ctx.n(120, 1000)):
        a1, a2 = r.randint(-128, 128), r.randint(-128, 128)
        iq0 = r.choice([0, 1, r.randint(1, 9), -r.randint(1, 9), 10, -12])
        i, out, rot, back, keep = findsymm(1, [a1 * Q64], [a2 * Q64], iq0)
        t.scenario()
        t.ev('findsymm1', n=1, q1=a1, q2=a2, q2p=enc(out[0] / Q64), rot=enc(rot[0] / Q64), back=enc(back[0] / Q64))
    for k in range(ctx.n(80, 600)):
        n = r.choice([2, 4])
        a, b = [r.randint(-9, 9) for _ in range(n)], [r.randint(-9, 9) for _ in range(n)]
        sfx = '4' if n == 4 else '2'
        o = [np.zeros(n) for _ in range(5)]
        icall('quatmult' + sfx, vec(a), vec(b), o[0])
        icall('quatadd' + ('' if n == 4 else '2'), vec(a), vec(b), o[1])
        icall('quatsub' + sfx, vec(a), vec(b), o[2])
        icall('quatconj' + ('' if n == 4 else '2'), vec(a), o[3])
        ms = np.zeros(1)
        icall('quatmagsq' + sfx, vec(a), ms)
        s1, s2 = vec(a), vec(b)
        icall('quatswap' + ('' if n == 4 else '2'), s1, s2)
        E = lambda v: [enc(x) for x in v]
        t.scenario()
        t.ev('algebra', n=n, a=a, b=b, mul=E(o[0]), add=E(o[1]), sub=E(o[2]), conj=E(o[3]), msq=enc(ms[0]), sw1=E(s1), sw2=E(s2))
        a = pyth(r, n)
        m = math.isqrt(sum(x * x for x in a))
        if 5040 % max(m, 1):
            continue
        v, w = vec(a), np.zeros(1)
        icall('quatmagn' + sfx, v, w)
        if r.random() < .5:
            icall('quatnorm', v, n)
        else:
            icall('quatnorm' + sfx, v)
        t.scenario()
        t.ev('norm', n=n, a=a, m=m, mag=enc(w[0]), nrm=[enc(x, 5040) for x in v])
    # half-open wrapping of angles; odd quarter-turn multiples of pi avoided (rounding decides them)
    for k in range(6):
        a = [x for x in (r.randint(-900, 900) for _ in range(60)) if x % 128 or x % 256 == 0]
        w = []
        for x in a:
            q = np.array([x * Q64])
            icall('quatnorm1', q)
            w.append(enc(q[0] / Q64))
        t.scenario()
        t.ev('wrap1', n=1, a=a, w=w)
    for k in range(ctx.n(30, 200)):
        q = [r.randint(-3, 3) for _ in range(4)]
        R, dR = np.zeros((3, 3), order='F'), np.zeros((3, 3, 4), order='F')
        icall('quatrotationmatrix', vec(q), R)
        icall('derivquatrotationmatrixdq', vec(q), dR)
        cq = [r.randint(-5, 5) for _ in range(2)]
        cR, dcR = np.zeros((3, 3), order='F'), np.zeros((3, 3, 2), order='F')
        icall('complexrotationmatrix', vec(cq), cR)
        icall('derivcomplexrotationmatrixdq', vec(cq), dcR)
        idx = [[r.randint(1, 3) for _ in range(4)] for _ in range(8)]
        M = lambda A, f=1: [[enc(A[i, j] * f) for j in range(3)] for i in range(3)]
        t.scenario()
        t.ev('rotmat', n=4, q=q, r=M(R), dr=[M(dR[:, :, m], 2) for m in range(4)], cq=cq, cr=M(cR),
             dcr=[M(dcR[:, :, m]) for m in range(2)], idx=idx, a4=[enc(L.fn('rotationtensorijkl', *x, R)) for x in idx])
    deg = [0, 10, 30, 45, 60, 90, 120, 150, 179, -30, -90]
    a4, a2 = [], []
    for d in deg:
        ch = 2 * math.sin(math.radians(d) / 2)
        o = np.zeros(1)
        icall('quatangl', float(ch), o); a4.append(enc(math.degrees(o[0])))
        icall('quatangl2', float(ch), o); a2.append(enc(math.degrees(o[0])))
    t.scenario()
    t.ev('angle', n=1, deg=deg, a4=a4, a2=a2)


def _mul(a, b):
    if len(a) == 2:
        return [a[0] * b[0] - a[1] * b[1], a[0] * b[1] + a[1] * b[0]]
    return [a[0] * b[0] - a[1] * b[1] - a[2] * b[2] - a[3] * b[3], a[0] * b[1] + a[1] * b[0] + a[2] * b[3] - a[3] * b[2],
            a[0] * b[2] + a[2] * b[0] + a[3] * b[1] - a[1] * b[3], a[0] * b[3] + a[3] * b[0] + a[1] * b[2] - a[2] * b[1]]
