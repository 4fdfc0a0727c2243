"""grains of the whole model: their numbers, diagnostics, and the extension of their orientation"""
import re
from ksys import *

Q = [[1., 0., 0., 0.], [0., 1., 0., 0.], [0., 0., 1., 0.], [.5, .5, .5, .5], [.5, -.5, .5, -.5]]


def lvls(r, dim, n):
    """up to three nested levels"""
    k = r.choice([1, 2, 2, 3]) if dim == 2 else r.choice([1, 2, 2])
    lev = levels(r, dim, n, min(k, 2))
    if k == 3:
        lo, hi = [min(x[0][d] for x in lev[1][1]) for d in range(dim)], [max(x[1][d] for x in lev[1][1]) for d in range(dim)]
        if all(b - a >= 3 for a, b in zip(lo, hi)):
            lev.append(([2] * dim, aligned(r, [2 * (a + 1) for a in lo], [2 * (b - 1) + 1 for b in hi], [2] * dim)))
    return lev


def world(ctx, dim, name, extra, lev=None):
    r = ctx.rng
    cf = cfg(r, dim, name)
    n = r.choice([[6, 5], [5, 7], [8, 4]]) if dim == 2 else r.choice([[4, 3, 4], [3, 4, 5], [4, 4, 3]])
    h = [r.choice([.5, 1.])] * dim
    per = [r.randint(0, 1) for _ in range(dim)]
    lev = lev(r, dim, n)
    return cf, n, h, per, lev, Sys(lib(ctx, 'sys', dim), dim, cf, n, h, per, lev, extra, fresh=float('nan') if r.random() < .5 else 0., ifresh=r.choice([0, 1]))


def phases(r, A, l):
    """random blobs: the phase in eighths"""
    p = r.choice([.08, .15, .2, .35, .5, .6, .75])
    f = Field(*A.bound(l), 0, None, 1)
    for c in A.cells(l):
        f.set(c, (r.choice([7, 8]) if r.random() < p else r.choice([0, 2, 5, 6])) / 8., 0)
    return f


def desc(lev):
    return [{'r': list(q), 'boxes': [{'lo': a, 'hi': b} for a, b in bs]} for q, bs in lev]


def nums(text, what):
    return [(int(k), float(v)) for k, v in re.findall(what + r' (\d+) = (\S+)', text)]


def numbering(ctx, dim):
    if lib(ctx, 'sys', dim) is None:
        return
    r = ctx.rng
    ctx.t.scenario()
    name = r.choice(['orient', 'alloy'])
    vis = r.random() < .5
    thr = r.choice([.875, .8])
    ex = {'GrainDiagnostics': {'interval': 1, 'interval_type': 'step', 'phase_threshold': thr}}
    if vis:
        ex['Visit'] = {'interval': 1, 'interval_type': 'step', 'grain_output': True}
    with Dir(ctx):
        try:
            cf, n, h, per, lev, A = world(ctx, dim, name, ex, lvls)
            ph, cn = [], []
            for l in range(len(lev)):
                f = phases(r, A, l)
                A.put('phase', l, f)
                ph.append(f.log(8)[0])
                c = Field(*A.bound(l), 0, None, 1)
                for x in A.cells(l):
                    c.set(x, r.randint(2, 14) / 16., 0)
                if name == 'alloy':
                    A.put('conc', l, c)
                cn.append(c.log(16)[0])
            # twice: nothing is left over from an earlier numbering
            A.w.call('sys_grains')
            if r.random() < .5:
                A.w.call('sys_grains')
            t = A.w.text('said')
            num = [A.get('grain_number', l, 1)[0].log()[0] for l in range(len(lev))]
            v = np.prod(h) / 2. ** (dim * (len(lev) - 1))
            show = [A.get('grain_volume', l, 1)[0].log(1. / v, True)[0] for l in range(len(lev))] if vis else []
            count = int(A.w.res('count')[0])
            A.close()
        except CxError as x:
            return ctx.t.ev('grainerror', dim=dim, what=str(x)[:200]) if not str(x).startswith('missing') else None
    get = lambda what, s: [encr(b, s) for a, b in sorted(nums(t, what))] if [a for a, b in nums(t, what)] == list(range(len(nums(t, what)))) else [-2]
    avg, dev = ([-1], [-1]) if name == 'orient' else (get('Concentration average of grain', 16 * 64.), get('Concentration deviation of grain', 256 * 16.))
    ctx.t.ev('numbering', dim=dim, n=n, per=per, lev=desc(lev), phase=ph, thr=7, num=num, count=count, conv=int('converged' in t), conc=cn, vol=get('Volume of grain', 1. / v), avg=avg, dev=dev,
             all=[encr(float(x), 16 * 64.) for x in re.findall(r'for all grains at \S+ = (\S+)', t)], show=show)


def extension(ctx, dim):
    if lib(ctx, 'sys', dim) is None:
        return
    r = ctx.rng
    ctx.t.scenario()
    ex = {'GrainExtension': {'interval': 1, 'interval_type': 'step'}}
    if r.random() < .5:
        ex['GrainDiagnostics'] = {'interval': 1, 'interval_type': 'step', 'phase_threshold': .875}
    with Dir(ctx):
        try:
            cf, n, h, per, lev, A = world(ctx, dim, 'orient', ex, lvls)
            one = r.randrange(len(Q))
            p = r.choice([0., .02, .1, .3]) if len(lev) == 1 else .1
            ph, before, after = [], [], []
            for l in range(len(lev)):
                f, q, b = Field(*A.bound(l), 0, None, 1), Field(*A.bound(l), 0, None, 4), Field(*A.bound(l), 0)
                for c in A.cells(l):
                    g = r.random() < p
                    k = r.randrange(len(Q)) if len(lev) == 1 or not g else one
                    f.set(c, r.choice([7, 8] if g else [0, 2, 5, 6]) / 8., 0)
                    b.set(c, k)
                    for m in range(4):
                        q.set(c, Q[k][m], m)
                A.put('phase', l, f)
                A.put('quat', l, q)
                ph.append(f.log(8)[0])
                before.append(b.log())
            A.w.call('sys_extend')
            for l in range(len(lev)):
                q, b = A.get('quat', l, 4)[0], Field(*A.bound(l), 0)
                for c in A.cells(l):
                    x = [q.get(c, m) for m in range(4)]
                    d = [k for k, y in enumerate(Q) if max(abs(a - e) for a, e in zip(x, y)) < 1e-9]
                    b.set(c, d[0] if d else 99)
                after.append(b.log())
            A.close()
        except CxError as x:
            return ctx.t.ev('grainerror', dim=dim, what=str(x)[:200]) if not str(x).startswith('missing') else None
    ctx.t.ev('extension', dim=dim, n=n, per=per, lev=desc(lev), phase=ph, thr=7, one=one, before=before, after=after)
