"""scenarios for AMPE's meshless classes"""
import os, math, tempfile, json, re
from amk import enc
from cx import World, lib, CxError

R = 8.314472
LN2 = math.log(2.)


def world(ctx):
    l = lib(ctx, 'units', 2)
    return None if l is None else World(l, 2)


def events(ctx, n):
    r = ctx.rng
    for _ in range(n):
        w = world(ctx)
        if w is None:
            return
        ctx.t.scenario()
        has = r.random() < .8
        c = {'has': has, 'type': r.choice(['', '', 'step', 'time', 'dt', 'cycle', 'never']) if r.random() < .97 else 'never',
             'given': r.random() < .8, 'interval': 0, 'first': r.choice([-1, -1, 0, 1]), 'final': r.choice([-1, -1, 0, 1]),
             'd8': r.choice([0, 0, 8, 8, 3, 4, 12, 20, 40, -8, 24]), 'dtype': 'step', 'dfirst': False, 'dfinal': True}
        if c['type'] == 'never' and r.random() < .7:
            c['type'] = 'time'
        nd = r.choice([1, 3])
        if nd == 3:
            c['dfirst'], c['dfinal'] = r.random() < .5, r.random() < .5
        if r.random() < .4:
            c['dtype'] = r.choice(['time', 'dt', 'cycle', 'step'])
        ty = c['type'] if has and c['type'] else c['dtype']
        cyc = ty in ('step', 'cycle')
        if has and c['given']:
            c['interval'] = r.choice([0, 1, 2, 3, 4, -1]) if cyc else r.choice([0, 2, 4, 8, 12, 6, 5, -4])
        kw = {'name': 'Ev', 'default': [c['d8'] / 8.] + ([float(c['dfirst']), float(c['dfinal'])] if nd == 3 else []), 'type': c['dtype']}
        if has or r.random() < .5:
            d = {}
            if has:
                if c['type']:
                    d['interval_type'] = c['type']
                if c['given']:
                    d['interval'] = c['interval'] if cyc else c['interval'] / 8.
                if c['first'] >= 0:
                    d['include_first_step'] = bool(c['first'])
                if c['final'] >= 0:
                    d['include_last_step'] = bool(c['final'])
                d['unused'] = 1
            kw['db'] = {'Ev': d} if has else {'Other': {'interval': 3}}
        # a run: initial query (mostly), steps with queries in between, final query
        ops, k, t = [], 0, r.choice([0, 0, 0, 3, 16])
        if r.random() < .3:
            ops.append(('active', k, t))
        if r.random() < .8:
            ops.append(('first', k, t))
        k = r.choice([0, 0, 5])
        for _ in range(r.choice([0, 0, 1, 3, 5, 8, 11, 14, 14])):
            u = r.random()
            if u < .75:
                k += 1
                t += r.choice([1, 1, 2, 3, 5, 8, 17])
                if r.random() < .9:
                    ops.append(('passed', k, t))
            elif u < .85:
                ops.append((r.choice(['occurred', 'active']), k, t))
            elif u < .95:
                ops.append(('passed', k, t))
            else:
                ops.append((r.choice(['first', 'last']), k, t))
        ops += [('last', k, t), ('last', k, t), ('occurred', k, t)][:r.choice([0, 1, 2, 3, 3])]
        code = {'active': 0, 'occurred': 1, 'first': 2, 'last': 3, 'passed': 4}
        kw['ops'] = [float(x) for o in ops for x in (code[o[0]], o[1], o[2] / 8.)]
        ok = True
        try:
            w.call('events', **kw)
        except CxError:
            ok = False
        f = w.res('fire') or []
        ctx.t.ev('iv_new', c=c, ok=ok)
        if ok:
            for o, x in zip(ops, f):
                ctx.t.ev('iv', op=o[0], k=o[1], t=o[2], fire=bool(x))


def history(ctx, n):
    r = ctx.rng
    for _ in range(n):
        w = world(ctx)
        if w is None:
            return
        nx, nt = r.randint(2, 5), r.randint(2, 4)
        x, tm = [r.randint(-4, 4)], [r.choice([0, 0, 1, 3])]
        for _ in range(nx - 1):
            x.append(x[-1] + r.choice([1, 2, 4]))
        for _ in range(nt - 1):
            tm.append(tm[-1] + r.choice([1, 2, 4]))
        T = [[r.randint(0, 40) for _ in x] for _ in tm]
        fd, path = tempfile.mkstemp(suffix='.csv', dir=os.environ.get('TMPDIR', '/tmp'))
        with os.fdopen(fd, 'w') as f:
            rows = []
            fm = lambda v: r.choice(['%d', '%.1f', ' %d'] if v >= 0 else ['%d', '%.1f']) % v
            rows.append(','.join(fm(v) for v in reversed(x)))
            for t, row in zip(tm, T):
                rows.append(','.join([fm(t)] + [fm(v) for v in reversed(row)]))
            for i in sorted([r.randint(0, len(rows)) for _ in range(r.randint(0, 2))], reverse=True):
                rows.insert(i, '# comment, 1')
            f.write('\n'.join(rows) + ('\n' if r.random() < .8 else ''))
        qs = []
        for _ in range(12):
            t4 = r.choice([4 * r.choice(tm), r.randint(4 * tm[0], 4 * tm[-1]), r.randint(4 * tm[0], 4 * tm[-1] - 1), r.randint(4 * tm[0] - 6, 4 * tm[-1] + 6)])
            x4 = r.choice([4 * r.choice(x), r.randint(4 * x[0], 4 * x[-1]), r.randint(4 * x[0], 4 * x[-1]), r.randint(4 * x[0] - 6, 4 * x[-1] + 6)])
            qs.append((t4, x4))
        ctx.t.scenario()
        try:
            w.call('history', file=path, q=[v / 4. for q in qs for v in q])
        finally:
            os.unlink(path)
        rc, tt, g = w.res('rc'), w.res('t'), w.res('g')
        for q, a, b, c in zip(qs, rc, tt, g):
            ctx.t.ev('hist_q', h={'x': x, 'tm': tm, 'T': T}, t4=q[0], x4=q[1], rc=int(a), t=enc(b, 256), g=enc(c, 1024))


def calphad(ctx, n):
    r = ctx.rng
    for _ in range(n):
        w = world(ctx)
        if w is None:
            return
        ns = r.choice([2, 2, 3])
        j0 = r.randint(2, 9)
        j = r.randint(0, 2)
        T0 = 2. ** j0
        nice = r.random() < .6
        ex = r.random() < .3
        m, db = [], {}
        base = {0: 16, 1: 32, 2: 64, 3: 128}

        def co(unit, prob):
            if r.random() > prob:
                return 0
            return r.choice([-1, 1]) * (unit if nice else r.randint(1, max(unit // 2, 3)))
        for s in range(ns):
            q = [[co(4, .4), co(4, .6)] for _ in range(ns)]
            x = [[co(4, .3), co(4, .3)] if ex else [] for _ in range(ns)]
            npair = 1 if ns == 2 else 3
            qq = [[[co(base[k], .2), co(base[k], .3)] for _ in range(npair)] for k in range(4)]
            absent = [[r.random() < .2 for _ in range(npair)] for _ in range(4)]
            d = {}
            for i, a in enumerate(q):
                v = [a[0] * R * T0 * LN2, 2. ** a[1]]
                if ex:
                    v += [x[i][0] * R, x[i][1] * R * LN2 * T0 * T0]
                    x[i] = [x[i][0], x[i][1]]
                d['q' + 'ABC'[i]] = v
            for k in range(4):
                for pi, nm in enumerate(['AB', 'AC', 'BC'][:npair]):
                    if absent[k][pi]:
                        qq[k][pi] = [0, 0]
                    else:
                        a = qq[k][pi]
                        d['q%d%s' % (k, nm)] = [a[0] * R * T0 * LN2, 2. ** a[1]]
            m.append({'q': q, 'x': x, 'qq': qq})
            db['s%d' % s] = d
        T = T0 / 2 ** j
        s = r.randint(4, 10)
        if ns == 2:
            cs = [r.randint(0, 4) for _ in range(4)]
            q = [v for c in cs for v in (c / 4., T)]
        else:
            cs = []
            for _ in range(4):
                a = r.randint(0, 4)
                b = r.randint(0, 4 - a)
                cs.append([a, b, 4 - a - b])
            q = [v for c in cs for v in (c[0] / 4., c[1] / 4., T)]
        w.call('calphadmob', n=ns, q=q, **db)
        at, bi, ph = w.res('atomic'), w.res('binary'), w.res('phase')
        np_ = 1 if ns == 2 else 4
        ctx.t.scenario()

        def lg(v):
            return enc(math.log2(v * R * T) if v > 0 and math.isfinite(v) else float('nan'), 4096, 1e-4)
        for i, c in enumerate(cs):
            f = [enc(v * R * T * 1e-12 * 64 * 2 ** s, 1, 1e-5) for v in ph[i * np_:(i + 1) * np_]]
            ctx.t.ev('mob%d' % ns, m=m, c=c, j0=j0, j=j, s=s, a=[lg(v) for v in at[i * ns:(i + 1) * ns]],
                     b=[lg(v) for v in bi[i * ns:(i + 1) * ns]] if bi else [], f=f[0] if ns == 2 else f)


def collectives(ctx, n):
    r = ctx.rng
    for _ in range(n):
        w = world(ctx)
        if w is None:
            return
        N = r.randint(1, 4)
        kind = r.choice(['map', 'map', 'map', 'gatherd', 'gatheri', 'array', 'double', 'int'])
        keys = []
        if kind == 'map':
            of, ks = [], set()
            for _ in range(r.randint(0, 9)):
                o, k = r.randrange(N), r.randint(-3, 4)
                if (o, k) not in ks:
                    ks.add((o, k))
                    of.append(o)
                    keys.append(k)
        elif kind[0] == 'g':
            of = [r.randrange(N) for _ in range(r.randint(0, 9))]
        else:
            m = r.randint(1, 4) if kind == 'array' else 1
            of = [i for i in range(N) for _ in range(m)]
        vals = [r.randint(-20, 20) for _ in of]
        ctx.t.scenario()
        ok = True
        try:
            w.call('collective', n=N, kind=kind, of=of, keys=keys, vals=[float(v) for v in vals])
        except CxError as x:
            ok = False
        ctx.t.ev('coll', n=N, what=kind, of=of, keys=keys, vals=vals, ok=ok,
                 out=[[enc(v) for v in w.res('out%d' % i) or []] for i in range(N)], key=[[int(v) for v in w.res('key%d' % i) or []] for i in range(N)])
    for _ in range(max(2, n // 6)):
        w = world(ctx)
        a = [r.randint(-9, 9) for _ in range(8)]
        b = [r.randint(-9, 9) for _ in range(8)]
        w.call('arrayop', a=[v / 2. for v in a], b=[v / 4. for v in b])
        ctx.t.scenario()
        ctx.t.ev('arrop', a=[2 * v for v in a], b=b, mul=[enc(v, 16) for v in w.res('mul')], add=[enc(v, 4) for v in w.res('add')],
                 src=[enc(v, 4) for v in w.res('src')], src2=[enc(v, 4) for v in w.res('src2')])


def dbs(ctx, n):
    r = ctx.rng
    for _ in range(n):
        w = world(ctx)
        if w is None:
            return
        rows = []
        names = ['a', 'b', 'zeta', 'T0', 'x_1', 'Species', 'list', 'alpha', 'q', 'GasConstant']

        def num():
            v = r.choice([float(r.randint(-9, 9)), r.randint(-99, 99) / 8., r.uniform(-1, 1), r.uniform(-1e5, 1e5), 10. ** r.randint(-12, 12), 0.1])
            return float('%.10g' % v)

        def make(depth, path):
            d = {}
            for k in r.sample(names, r.randint(1, 5)):
                p = path + '/' + k
                ty = r.choice(['double', 'double', 'int', 'string', 'bool'] + (['db'] if depth else []))
                if ty == 'db':
                    sub = make(depth - 1, p)
                    if sub:
                        d[k] = sub
                    continue
                m = r.choice([1, 1, 2, 3, 5])
                vs = [num() if ty == 'double' else r.randint(-10 ** 6, 10 ** 6) if ty == 'int' else r.random() < .5 if ty == 'bool' else r.choice(['pbg', 'Liquid', 'a b', 'x-y', '']) if m > 1 else r.choice(['pbg', 'Liquid phase', 'h']) for _ in range(m)]
                if ty == 'string':
                    vs = [v or 'e' for v in vs]
                d[k] = vs if m > 1 else vs[0]
                rows.append([p, ty, ['%.10g' % v if ty == 'double' else str(int(v)) if ty == 'bool' else str(v) for v in vs]])
            return d
        d = make(2, '')
        if not rows:
            continue
        w.call('dbcopy', db=d)

        def tree(t):
            o = {}
            for ln in t.split('\n'):
                if ln:
                    k, v = ln.split('=', 1)
                    o.setdefault(k, []).append(v)
            return [[k, v] for k, v in o.items()]

        def cp(t):
            o = []
            for ln in t.split('\n'):
                if ln:
                    k, v = ln.split('=', 1)
                    ty, vs = v.split(' ', 1)
                    if ty == 'string':
                        for row in rows:   # words of a string array cannot be told apart by blanks
                            if row[0] == k and ' '.join(row[2]) == vs:
                                vs = row[2]
                        vs = [vs] if isinstance(vs, str) else vs
                    else:
                        vs = ['%.10g' % float(x) if ty == 'double' else x for x in vs.split()]
                    o.append([k, ty, vs])
            return o
        ctx.t.scenario()
        ctx.t.ev('dbc', **{'in': rows, 'tree': tree(w.text('tree')), 'json': tree(w.text('json')), 'copy': cp(w.text('copy'))})
