"""scenarios for the operators that move data between levels"""
from amk import Field, enc, encr, SENT, cells
from cx import World, lib, flat, CxError


def setup(ctx, dim):
    r = ctx.rng
    ra = [r.choice([1, 2, 2, 3, 4]) if dim == 2 else r.choice([1, 2, 2, 3]) for _ in range(dim)]
    lo = [r.randint(-5, 3) for _ in range(dim)]
    n = [r.randint(3, 6 if dim == 2 else 4) for _ in range(dim)]
    hi = [a + k - 1 for a, k in zip(lo, n)]
    # the fine patch lies over the coarse cells flo..fhi
    flo = [r.randint(a, b) for a, b in zip(lo, hi)]
    fhi = [r.randint(a, b) for a, b in zip(flo, hi)]
    F = ([a * q for a, q in zip(flo, ra)], [b * q + q - 1 for b, q in zip(fhi, ra)])
    w = World(lib(ctx, 'transfer', dim), dim)
    w.new(lo, hi, [r.choice([.5, 1., .25]) for _ in range(dim)], [([1] * dim, [(lo, hi)]), (ra, [F])], [1] * dim)
    return w, ra, lo, hi, flo, fhi, F


def sub(r, lo, hi):
    a = [r.randint(x, y) for x, y in zip(lo, hi)]
    return a, [r.randint(x, y) for x, y in zip(a, hi)]


def vec(r, n):
    """an orientation with first component not zero, so that means are not"""
    return [r.randint(1, 6)] + [r.randint(-6, 6) for _ in range(n - 1)]


def field(r, lo, hi, ng, n, nanout=None):
    f = Field(lo, hi, ng, None, n)
    for c in cells(f.lo, f.hi):
        v = vec(r, n) if nanout is None or not nanout(c) else [float('nan')] * n
        for m in range(n):
            f.set(c, v[m], m)
    return f


def qmul(a, b):
    return [a[0] * b[0] - a[1] * b[1] - a[2] * b[2] - a[3] * b[3], a[0] * b[1] + a[1] * b[0] + a[2] * b[3] - a[3] * b[2],
            a[0] * b[2] + a[2] * b[0] + a[3] * b[1] - a[1] * b[3], a[0] * b[3] + a[3] * b[0] + a[1] * b[2] - a[2] * b[1]]


GROUP = [r for r in __import__('itertools').product((-1, 0, 1), repeat=4) if sum(map(abs, r)) in (1, 2, 4)]


def orient(r, n, base, sym):
    """a unit orientation near base, under a symmetry chosen anew"""
    e = [r.gauss(0, 1) for x in base]
    E = sum(x * x for x in e) ** .5 / ((.12 if n == 4 else .28) * r.random() ** .5)
    v = [x + y / E for x, y in zip(base, e)]
    if not sym:
        pass
    elif n == 2:
        c, s = r.choice([(1, 0), (0, 1), (-1, 0), (0, -1)])
        v = [v[0] * c - v[1] * s, v[0] * s + v[1] * c]
    elif r.random() < .8:
        v = qmul(v, r.choice(GROUP))
    N = sum(x * x for x in v) ** .5
    return [x / N for x in v]


def sfield(r, lo, hi, ng, n, nanout, sym=True):
    f = Field(lo, hi, ng, None, n)
    base = [1.] + [r.uniform(-.6, .6) for _ in range(n - 1)] if r.random() < .7 else [1.] + [0.] * (n - 1)
    N = sum(x * x for x in base) ** .5
    base = [x / N for x in base]
    for c in cells(f.lo, f.hi):
        v = [float('nan')] * n if nanout(c) else orient(r, n, base, sym)
        for m in range(n):
            f.set(c, v[m], m)
    return f


def put(w, name, f, level):
    w.put(name, [f], level)


def coarsen(ctx, dim, sym=False):
    r = ctx.rng
    w, ra, lo, hi, flo, fhi, F = setup(ctx, dim)
    op = r.choice(['min', 'plain', 'plain']) if not sym else 'aware'
    gf, gc = r.choice([0, 1, 2]), r.choice([0, 1])
    box = sub(r, flo, fhi)
    box = (flo, fhi) if r.random() < .4 else box
    under = lambda c: any(x // q < a or x // q > b for x, q, a, b in zip(c, ra, *box))
    ev = dict(dim=dim, ra=ra, boxes=[{'lo': box[0], 'hi': box[1]}])
    try:
        if op == 'min':
            w.var('fine', 'i', 1, gf); w.var('coarse', 'i', 1, gc)
            f = Field(*F, gf, None, 1, integer=True)
            p = r.random()
            for c in cells(f.lo, f.hi):
                f.set(c, -3 if under(c) else r.randint(0, 9) if r.random() < p else r.choice([-1, -1, -2]), 0)
            o = Field(lo, hi, gc, None, 1, integer=True)
            o.fill(-5)
            put(w, 'fine', f, 1); put(w, 'coarse', o, 0)
            w.call('coarsen', op=op, box=list(box[0]) + list(box[1]))
            w.get('coarse', [o], 0, 1)
            ctx.t.ev('least', fine=f.log()[0], out=o.log()[0], keep=-5, width=int(w.res('width')[0]), **ev)
            return
        n = r.choice([1, 2, 4]) if not sym else r.choice([2, 4, 4])
        w.var('fine', 'c', n, gf); w.var('coarse', 'c', n, gc)
        w.var('rotation', 'si', 1, r.choice([0, 1]))
        f = field(r, *F, gf, n, under) if not sym else sfield(r, *F, gf, n, under)
        w.fill('coarse', SENT); w.fill('rotation', 0)
        put(w, 'fine', f, 1)
        w.call('coarsen', op=op, box=list(box[0]) + list(box[1]))
        o = Field(lo, hi, gc, None, n)
        w.get('coarse', [o], 0, 1)
        if sym:
            ctx.t.ev('symaverage', fine=f.log(1024, True), out=o.log(1024, True), q=1024, width=int(w.res('width')[0]), **ev)
            return
        q = 2048
        N = 1
        for x in ra:
            N *= x
        ctx.t.ev('average', fine=f.log(), out=o.log(N if n == 1 else q, True), q=q, width=int(w.res('width')[0]), **ev)
    except CxError as x:
        if not str(x).startswith('missing'):
            ctx.t.ev('transerror', dim=dim, what=str(x)[:200])


def refine(ctx, dim, sym=False):
    r = ctx.rng
    w, ra, lo, hi, flo, fhi, F = setup(ctx, dim)
    n, gf, gc = r.choice([2, 4, 4]), r.choice([0, 1, 2]), 1
    # destination: boxes in the fine patch and its ghost cells that the coarse patch and one ghost layer reach
    gl, gh = [max(a - gf, (b - 0) * q) for a, b, q in zip(F[0], lo, ra)], [min(a + gf, (b + 1) * q - 1) for a, b, q in zip(F[1], hi, ra)]
    bs = [sub(r, gl, gh) if r.random() < .6 else (gl, gh)]
    if r.random() < .3:      # two boxes that do not overlap
        d = r.randrange(dim)
        a, b = bs[0]
        if b[d] < gh[d]:
            a2 = [b[k] + 1 if k == d else x for k, x in enumerate(gl)]
            bs.append(sub(r, a2, gh))
    near = set()
    for a, b in bs:
        for f in cells(a, b):
            rng = []
            for x, q in zip(f, ra):
                o, c = 2 * (x % q) + 1 - q, x // q
                rng.append([c - 1, c] if o < 0 else [c, c + 1])
            near |= set(__import__('itertools').product(*rng))
    try:
        w.var('fine', 'c', n, gf); w.var('coarse', 'c', n, gc); w.var('rotation', 'si', 1, r.choice([0, 1]))
        c = sfield(r, lo, hi, gc, n, lambda x: x not in near, sym)
        w.fill('fine', SENT); w.fill('rotation', 0)
        put(w, 'coarse', c, 0)
        kw = {'box': list(bs[0][0]) + list(bs[0][1])}
        if len(bs) > 1:
            kw['box2'] = list(bs[1][0]) + list(bs[1][1])
        w.call('refine', **kw)
        o = Field(*F, gf, None, n)
        w.get('fine', [o], 1, 1)
        ctx.t.ev('symlinear', dim=dim, ra=ra, boxes=[{'lo': a, 'hi': b} for a, b in bs], coarse=c.log(1024, True), out=o.log(1024, True), q=1024, width=int(w.res('width')[0]))
    except CxError as x:
        if not str(x).startswith('missing'):
            ctx.t.ev('transerror', dim=dim, what=str(x)[:200])
