"""runs utils/make_*.py and the text utilities on generated options and logs
the fields they write"""
import json, math, os, subprocess, shutil, tempfile, concurrent.futures as cf
from amk import enc, encr
from build import REPO, BUILD
HERE = os.path.dirname(os.path.abspath(__file__))
WORKER = os.path.join(HERE, '..', 'lib', 'ncworker.py')
PY = '/usr/bin/python3'
BAD = 1073741831


def runjobs(jobs):
    """jobs run in 8 worker processes of the system python (which has netCDF4)"""
    top = tempfile.mkdtemp(prefix='nc', dir=BUILD)
    try:
        n = 8
        for i, j in enumerate(jobs):
            j['dir'] = os.path.join(top, 'j%d' % i)

        def one(k):
            a, b = os.path.join(top, 'in%d' % k), os.path.join(top, 'out%d' % k)
            json.dump(jobs[k::n], open(a, 'w'))
            subprocess.run([PY, WORKER, a, b], timeout=800, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
            return json.load(open(b))
        with cf.ThreadPoolExecutor(n) as ex:
            rs = list(ex.map(one, range(n)))
        if any(r is None for r in rs):
            return None
        out = [None] * len(jobs)
        for k in range(n):
            out[k::n] = rs[k]
        return out
    finally:
        shutil.rmtree(top, ignore_errors=True)


def sgnsq(v, tol):
    return enc((1 if v >= 0 else -1) * v * v, 900, tol)


def field(r, name, k=1., tol=1e-4):
    v = r['vars'].get(name)
    return [enc(x, k, tol) for x in v['val']] if v else []


def quats(r, qlen, f):
    vs = [r['vars'].get('quat%d' % (m + 1)) for m in range(qlen)]
    if qlen == 0 or None in vs:
        return []
    return [[f(x) for x in t] for t in zip(*[v['val'] for v in vs])]


def prof(x, w, f):
    """interface profile 1/(1+exp(d/w)): code and decoded f(d)"""
    if not math.isfinite(x):
        return [0, 0]
    if x > .985:
        return [1, 0]
    if x < .015:
        return [2, 0]
    return [3, enc(f(-w * math.log(x / (1. - x))), 1, .02)]


S = 120


class Gen:
    def __init__(self, ctx):
        self.ctx, self.r, self.jobs = ctx, ctx.rng, []

    def add(self, script, args, log, **kw):
        self.jobs.append((dict(script=os.path.join(REPO, 'utils', script), args=[str(a) for a in args], **kw), log))

    def go(self):
        rs = runjobs([j for j, _ in self.jobs])
        if rs is None:
            print('NOTICE: system python without netCDF4: generators not run')
            return
        for (j, log), r in zip(self.jobs, rs):
            self.ctx.t.scenario()
            if not r['ok'] and os.environ.get('VERIF_DEBUG'):
                print('  generator failed', j['script'], j['args'], r.get('err'))
            log(r)

    def dims(self, lo=4, hi=10, three=.4):
        r = self.r
        return [r.randint(lo, hi), r.randint(lo, hi), r.randint(lo, min(hi, 7)) if r.random() < three else 1]

    def uq(self, l):
        """integer vector with integer norm dividing 30"""
        r = self.r
        if l == 2:
            v = r.choice([(1, 0), (0, 1), (3, 4), (-4, 3), (3, -4)])
        else:
            v = r.choice([(1, 0, 0, 0), (1, 1, 1, 1), (-1, 1, -1, 1), (0, 1, 2, 2), (2, -1, 2, 4), (0, 0, 3, 4), (1, 2, 0, -2), (0, 0, 1, 0)])
        return list(v)

    def tri(self):
        """three different values in quarters"""
        return self.r.sample(range(-3, 9), 3)

    # ------------------------------------------------------------------
    def sphere(self):
        r = self.r
        two = r.random() < .4
        n = self.dims()
        if r.random() < .3:
            n = [r.randint(4, 7)] * 3
        if two:
            n[0] += n[0] % 2   # half radii stay on the lattice
        qlen = r.choice([1, 2, 4])
        p = dict(n=n, two=two, cen=[-1, -1, -1], r=-1, ratio=3, qlen=qlen, qmode='angle', angle=0, q=[])
        a = ['-n', n[0]] if n[0] == n[1] == n[2] else ['-x', n[0], '-y', n[1], '-z', n[2]]
        if two:
            a += ['-2']
        elif r.random() < .6:
            for d in range(3):
                if r.random() < .7:
                    p['cen'][d] = r.randint(-1, n[d] + 1)
                    if p['cen'][d] < 0:
                        p['cen'][d] = 0
                    a += [('--cx', '--cy', '--cz')[d], p['cen'][d]]
        if r.random() < .7:
            p['r'] = r.randint(1, max(2, max(n) // 2))
            a += ['-r', p['r']]
        if two and r.random() < .6:
            p['ratio'] = r.choice([2, 3, 4, 1])
            a += ['--ratio', p['ratio'] / 2.]
        for k, o in (('phin', '-i'), ('phout', '-o'), ('cin', '-c'), ('cout', '--concentration-out')):
            p[k] = dict(phin=20, phout=0, cin=2, cout=None)[k] if False else None
        v = {}
        for k, o, d in (('phin', '-i', 1.), ('phout', '-o', 0.), ('cin', '-c', .1), ('cout', '--concentration-out', .06)):
            if r.random() < .6:
                x = r.randint(-6, 40) / 8.
                a += [o + ('' if len(o) > 2 else ''), x] if x >= 0 or len(o) == 2 else [o + '=%g' % x]
                v[k] = x
            else:
                v[k] = d
            p[k] = round(v[k] * 200)
        m = r.random()
        if qlen == 1:
            if m < .5:
                q = [r.randint(-90, 90) for _ in range(3)]
                p['qmode'] = 'given'
                p['q'] = q
                a += ['--angle-out=%d' % q[0], '--angle-in=%d' % q[1]] + (['--angle-in-two=%d' % q[2]] if two else [])
            else:
                p['angle'] = r.choice([44, 30, -20, 90])
                if p['angle'] != 44:
                    a += ['--angle=%d' % p['angle']]
        else:
            if m < .5:
                q = [self.uq(qlen) for _ in range(3)]
                p['qmode'] = 'given'
                p['q'] = q
                s = [','.join(map(str, x)) for x in q]
                a += ['--quat-out=' + s[0], '--quat-in=' + s[1]] + (['--quat-in-two=' + s[2]] if two else [])
            else:
                p['angle'] = r.choice([0, 60, 90, 120, 180])
                a += ['--angle=%d' % p['angle']]
        a += ['--qlen', qlen] if qlen != 4 or r.random() < .5 else []

        def log(res):
            qf = (lambda x: enc(x * 180 / math.pi, 1, 1e-4)) if qlen == 1 else (lambda x: sgnsq(x, 1e-3))
            self.ctx.t.ev('sphere', p=p, ok=res['ok'], phase=field(res, 'phase', 200), conc=field(res, 'concentration', 200), q=quats(res, qlen, qf))
        self.add('make_sphere.py', a + ['o.nc'], log, nc=['o.nc'])

    # ------------------------------------------------------------------
    def nuclei(self):
        r = self.r
        ng = r.choice([1, 1, 1, 2, 4, 8, 9])
        n = self.dims(5, 10)
        if ng == 8:
            n = [r.randint(10, 12) for _ in range(3)]
        elif ng in (4, 9):
            n = [r.randint(16, 22), r.randint(16, 22), 1]
        elif ng == 2:
            n = [r.choice([12, 15, 18]), r.choice([12, 15, 18]), r.choice([1, 1, 6])]
        per = [r.randint(0, 1) for _ in range(3)]
        p = dict(n=n, ngrains=ng, per=per, cen=[], r=-1, width=0, three=False, cmode='-', nom=[], cin=[], cout=[], temp=[], qmode='none', qlen=0, q=[], qout=[])
        a = ['-x', n[0], '-y', n[1], '-z', n[2], '--ngrains', ng]
        if n[2] == 1 and r.random() < .5:
            del a[4:6]
        if per != [0, 0, 0] or r.random() < .3:
            a += ['--periodic', ','.join(map(str, per))]
        if ng == 1 and r.random() < .7:
            c = [r.randint(0, 2 * n[d]) for d in range(3 if n[2] > 1 or r.random() < .6 else 2)]
            p['cen'] = [60 * x for x in c]
            a += ['--center0', ','.join('%g' % (x / 2.) for x in c)]
        if ng > 2:
            a += ['--jitter-factor', 0.]
            p['r'] = {4: 2, 8: 1, 9: 1}[ng]
        elif ng == 2:
            p['r'] = 1
        elif r.random() < .85:
            p['r'] = r.randint(1, 5)
        if p['r'] > 0:
            a += ['-r', p['r']]
        w = 0
        if ng == 1 and r.random() < .3:
            w = r.choice([.5, 1., 1.5])
            p['width'] = round(2 * w)
            a += ['-w', w]
            if p['r'] < 0:
                a += ['-r', 2]
                p['r'] = 2
        p['phin'], p['phout'] = 4, 0
        if not w and r.random() < .4:
            p['phin'] = r.randint(1, 9)
            a += ['-i', p['phin'] / 4.]
        m = r.random()
        nsp = r.randint(1, 3)
        ints = lambda: [r.choice([0, 1, 2, 3, 3, 5]) for _ in range(nsp)]
        s = lambda v: ','.join(map(str, v))
        if m < .75 and p['phin'] == 4 and not w:
            p['cmode'] = r.choice(['io', 'n', 'ni', 'no'])
            p['cin'], p['cout'], p['nom'] = ints(), ints(), ints()
            if p['cmode'] in ('n', 'ni', 'no'):
                a += ['-c', s(p['nom'])]
            if p['cmode'] in ('io', 'ni'):
                a += ['--concentration-in', s(p['cin'])]
            if p['cmode'] in ('io', 'no'):
                a += ['--concentration-out', s(p['cout'])]
        elif not w and r.random() < .5:
            p['phout'] = r.randint(1, 7)
            a += ['-o', p['phout'] / 4.]
        if r.random() < .3 and p['phout'] == 0 and not w and p['cmode'] == '-':
            p['three'] = True
            a += ['--three']
        if r.random() < .3:
            p['temp'] = [r.randint(1, 2000), r.randint(1, 2000)]
            a += ['--temperature-in', p['temp'][0], '--temperature-out', p['temp'][1]]
        qf = lambda x: sgnsq(x, 1e-3)
        if r.random() < .6:
            p['qlen'] = r.choice([1, 2, 4])
            m = r.random()
            if m < .3 and ng == 1 and p['qlen'] > 1:
                # given orientation (components taken as they are)
                p['qmode'] = 'quat0'
                p['q'] = self.uq(p['qlen'])
                nr = math.sqrt(sum(x * x for x in p['q']))
                a += ['--quat0=' + ','.join('%.12g' % (x / nr) for x in p['q'])]
                if r.random() < .5:
                    p['qmode'] = 'out'
                    p['qout'] = self.uq(p['qlen'])
                    nr = math.sqrt(sum(x * x for x in p['qout']))
                    a += ['--quat-out=' + ','.join('%.12g' % (x / nr) for x in p['qout'])]
            elif m < .6 and p['qlen'] == 4:
                p['qmode'] = 'bain'
                a += ['-b']
                qf = lambda x: enc(8 * (x * x - .5) * abs(x * x - .5), 1, 1e-4)
            else:
                p['qmode'] = 'random'
                if r.random() < .4:
                    a += ['-s']
            a += ['-q', p['qlen']]
        dbl = r.random() < .5
        if dbl:
            a += ['--double']

        def log(res):
            nsp = len(p['cin'])
            vol = n[0] * n[1] * n[2]
            cs = 1
            ph = res['vars'].get('phase', dict(val=[]))['val']
            if p['cmode'] in ('ni', 'no'):
                vs = round(sum(ph))
                cs = vol - vs if p['cmode'] == 'ni' else vs
            e = dict(p=p, ok=res['ok'], cscale=cs)
            rr = p['r']
            e['phase'] = [prof(x, w, lambda d: (120 * (rr + d)) ** 2 / 3600.) for x in ph] if w else field(res, 'phase', 4)
            if w:
                e['phase'] = [[c, x * 3600 if c == 3 and abs(x) < 500000 else (BAD if c == 3 else 0)] for c, x in e['phase']]
            e['eta'] = field(res, 'eta')
            e['conc'] = [field(res, 'concentration%d' % k, max(cs, 1), 2e-3) for k in range(sum(1 for v in res['vars'] if v.startswith('concentration')))]
            e['temp'] = field(res, 'temperature')
            if p['qmode'] == 'random':
                q = quats(res, p['qlen'], lambda x: round(x, 5))
                lab = {}
                e['q'] = [lab.setdefault(tuple(x), len(lab)) for x in q]
                e['norm'] = [enc(sum(x * x for x in t), 1, 1e-4) for t in lab]
                # label of the grain: that of the cell holding its centre
                from fractions import Fraction
                cell = lambda c: sum(min(max(int(c[d] // S), 0), n[d] - 1) * [1, n[0], n[0] * n[1]][d] for d in range(3))
                C = centers(p)
                e['lab'] = [e['q'][cell(c)] if len(e['q']) == vol else -1 for c in C]
            else:
                e['q'] = quats(res, p['qlen'], qf)
                e['norm'], e['lab'] = [], []
            self.ctx.t.ev('nuclei', **e)
        self.add('make_nuclei.py', a + ['o.nc'], log, nc=['o.nc'])

    # ------------------------------------------------------------------
    def multi(self):
        r = self.r
        n = self.dims(5, 10)
        per = [r.randint(0, 1) for _ in range(3)]
        w = r.choice([0, 0, .5, 1.])
        ns = r.randint(1, 4)
        sph, ph, txt = [], [], ''
        B = r.random() < .5
        conc = r.random() < .7
        for g in range(ns):
            c = [r.randint(0, 2 * n[d]) for d in range(3)]
            rad = r.randint(1, 4)
            sph.append([60 * x for x in c] + [S * rad])
            ph.append(r.choice('AB') if B else 'A')
            txt += ', '.join('%g' % (x / 2.) for x in c) + ', %d' % rad + (', ' + ph[-1] if ph[-1] == 'B' or r.random() < .5 else '') + '\n'
        k = r.randint(1, 3)
        ints = lambda: [r.choice([0, 1, 2, 3, 3, 5]) for _ in range(k)]
        p = dict(n=n, per=per, sph=sph, ph=ph, width=round(2 * w), cout=ints() if conc else [], cA=ints(), cB=ints())
        s = lambda v: ','.join(map(str, v))
        a = ['--spheres', 's.csv', '-x', n[0], '-y', n[1], '-z', n[2]]
        if n[2] == 1 and r.random() < .5:
            a = a[:-2]
        if w:
            a += ['-w', w]
        if per != [0, 0, 0] or r.random() < .3:
            a += ['--periodic', s(per)]
        if conc:
            a += ['--concentration-out', s(p['cout']), '--concentration-A', s(p['cA'])] + (['--concentration-B', s(p['cB'])] if B else [])

        def log(res):
            e = dict(p=p, ok=res['ok'], phase=[], conc=[])
            for g in range(sum(1 for v in res['vars'] if v.startswith('phase'))):
                if w:
                    rad = sph[g][3] / S if g < len(sph) else 0
                    o = [prof(x, w, lambda d: 4 * (rad + d) ** 2) for x in res['vars']['phase%d' % g]['val']]
                    e['phase'].append([[c, x * 3600 if c == 3 and abs(x) < 500000 else (BAD if c == 3 else 0)] for c, x in o])
                else:
                    e['phase'].append(field(res, 'phase%d' % g))
            e['conc'] = [field(res, 'concentration%d' % g) for g in range(sum(1 for v in res['vars'] if v.startswith('concentration')))]
            self.ctx.t.ev('multi', **e)
        self.add('make_multi_spheres.py', a + ['o.nc'], log, nc=['o.nc'], files={'s.csv': txt})

    # ------------------------------------------------------------------
    def bilayer(self):
        r = self.r
        two = r.random() < .4
        ax = r.choice([0, 0, 1, 2])
        n = self.dims(3, 6)
        n[ax] = 4 * r.randint(2, 6)
        p = dict(n=n, two=two, ax=ax + 1, cen=-1, r=-1, ratio=2, delta=0, qlen=r.choice([1, 2, 4]), qmode='angle', angle=0, q=[], cmode='-', cin=[], cout=[], nom=[], temp=[])
        a = ['-x', n[0], '-y', n[1], '-z', n[2], '--qlen', p['qlen']]
        if ax or r.random() < .5:
            a += ['--orient', 'xyz'[ax]]
        if two:
            a += ['-2']
        if r.random() < .6 or n[ax] % 8:
            p['r'] = r.randint(1, n[ax] // 8) if two else r.randint(1, n[ax] // 2)
            a += ['-r', p['r']]
        if two and r.random() < .6:
            p['ratio'] = r.choice([2, 4, 1] if (p['r'] if p['r'] > 0 else n[ax] // 8) % 2 == 0 else [2, 4])
            a += ['--ratio', p['ratio'] / 2.]
        if not two and r.random() < .4:
            p['cen'] = S * r.randint(1, n[ax] - 1)
            a += ['--center' + 'xyz'[ax], p['cen'] // S]
        if not two and r.random() < .35:
            p['delta'] = r.choice([1, 2])
            a += ['-d', p['delta']]
        p['phin'], p['phout'] = 4, 0
        if not p['delta']:
            if r.random() < .4:
                p['phin'] = r.randint(1, 9)
                a += ['-i', p['phin'] / 4.]
            if r.random() < .4:
                p['phout'] = r.randint(1, 9)
                a += ['-o', p['phout'] / 4.]
        # composition, exact when the slab lies inside the domain
        inside = True
        rr = p['r'] if p['r'] > 0 else (n[ax] // 8 if two else n[ax] // 4)
        if not two:
            c = p['cen'] // S if p['cen'] > 0 else n[ax] // 2
            inside = rr <= c <= n[ax] - rr and 2 * rr < n[ax]
        else:
            inside = rr * p['ratio'] / 2 <= n[ax] / 4 and rr <= n[ax] / 4 and rr * (2 + p['ratio']) < n[ax]
        nsp = r.randint(1, 3)
        ints = lambda: [r.choice([0, 1, 2, 3, 3, 5]) for _ in range(nsp)]
        s = lambda v: ','.join(map(str, v))
        if r.random() < .8 and inside:
            p['cmode'] = r.choice(['io', 'n', 'ni', 'no'])
            p['cin'], p['cout'], p['nom'] = ints(), ints(), ints()
            if p['cmode'] in ('n', 'ni', 'no'):
                a += ['-c', s(p['nom'])]
            if p['cmode'] in ('io', 'ni'):
                a += ['--concentration-in', s(p['cin'])]
            if p['cmode'] in ('io', 'no'):
                a += ['--concentration-out', s(p['cout'])]
        if r.random() < .3:
            p['temp'] = [r.randint(300, 900), r.choice([0, 0, 1, 3, -2])]
            a += ['--temperature0', p['temp'][0]] + (['--gradxT=%d' % p['temp'][1]] if p['temp'][1] else [])
        if p['qlen'] == 1:
            if r.random() < .5:
                p['qmode'], p['q'] = 'given', [r.randint(-90, 90), r.randint(-90, 90)]
                a += ['--angle-in=%d' % p['q'][0], '--angle-out=%d' % r.randint(0, 90)] + (['--angle-in-two=%d' % p['q'][1]] if two else [])
            else:
                p['angle'] = r.choice([44, 30, 60])
                a += ['--angle=%d' % p['angle']] if p['angle'] != 44 else []
        elif r.random() < .5:
            p['qmode'], p['q'] = 'given', [self.uq(p['qlen']), self.uq(p['qlen'])]
            a += ['--quat-in=' + s(p['q'][0]), '--quat-out=' + s(self.uq(p['qlen']))] + (['--quat-in-two=' + s(p['q'][1])] if two else [])
        else:
            p['angle'] = r.choice([0, 60, 90, 120, 180] if p['qlen'] == 4 else [0, 30, 45, 60, 90])
            a += ['--angle=%d' % p['angle']]

        def log(res):
            vol = n[0] * n[1] * n[2]
            ar = vol // n[ax]
            vs = 2 * rr * ar
            if two:
                vs = round((rr + rr * p['ratio'] / 2.) * 2 * ar)
            cs = vol - vs if p['cmode'] == 'ni' else vs if p['cmode'] == 'no' else 1
            ph = res['vars'].get('phase', dict(val=[]))['val']
            e = dict(p=p, ok=res['ok'], cscale=cs)
            if p['delta']:
                o = [prof(x, p['delta'], lambda d: 2 * d) for x in ph]
                e['phase'] = [[c, x * 60 if c == 3 and abs(x) < 100000 else (BAD if c == 3 else 0)] for c, x in o]
            else:
                e['phase'] = field(res, 'phase', 4)
            nc = sum(1 for v in res['vars'] if v.startswith('concentration'))
            if p['delta'] and p['cmode'] != '-':
                # the composition is the phase mixture of the two given ones
                def io(k):
                    ci, co, m = p['cin'][k], p['cout'][k], p['nom'][k]
                    return {'io': (ci, co), 'n': (m, m), 'ni': (ci, (m * vol - ci * vs) / max(1, vol - vs)), 'no': ((m * vol - co * (vol - vs)) / max(1, vs), co)}[p['cmode']]
                e['conc'] = [[encr(x - (f * io(k)[0] + (1 - f) * io(k)[1]), 1000) for x, f in zip(res['vars']['concentration%d' % k]['val'], ph)] for k in range(min(nc, nsp))]
                if nc != nsp:
                    e['conc'] = []
            else:
                e['conc'] = [field(res, 'concentration%d' % k, cs, 2e-3) for k in range(nc)]
            e['temp'] = field(res, 'temperature', 2)
            e['q'] = quats(res, p['qlen'], (lambda x: enc(x * 180 / math.pi, 1, 1e-4)) if p['qlen'] == 1 else (lambda x: sgnsq(x, 1e-3)))
            self.ctx.t.ev('bilayer', **e)
        self.add('make_bilayer.py', a + ['o.nc'], log, nc=['o.nc'])

    # ------------------------------------------------------------------
    def corners(self):
        r = self.r
        n = [2 * r.randint(3, 8)] * 2 + [r.choice([1, 1, 2])]
        p = dict(n=n, qlen=r.choice([0, 2, 4]))
        a = ['-x', n[0], '-y', n[1], '-z', n[2], '-q', p['qlen']]

        def log(res):
            self.ctx.t.ev('corners', p=p, ok=res['ok'], phase=field(res, 'phase'), q=quats(res, p['qlen'], lambda x: enc(x, 2)))
        self.add('make4corners.py', a + ['o.nc'], log, nc=['o.nc'])

    # ------------------------------------------------------------------
    def boundary(self):
        r = self.r
        plane = r.choice([0, 1, 1, 2])
        ng = r.choice([1, 1, 2])
        an = plane
        at = {0: 1, 1: 0, 2: 0}[plane]
        n = [0, 0, 0]
        n[an] = r.choice([8, 10, 12, 16, 20])
        n[at] = r.choice([20, 24, 28]) if ng == 2 else r.randint(3, 6)
        oth = 3 - an - at
        n[oth] = r.randint(1, 4)
        if ng == 2:
            n[oth] = r.randint(1, 2)
        sf = r.choice([160, 240, 320, 480])
        w = r.choice([0., 2., 3., 5.])
        p = dict(n=n, plane=plane, ngrains=ng, sf=sf, width=round(w), qmode='none', qlen=0, q=[], pert=0, cmode='-', cin=[])
        a = ['-x', n[0], '-y', n[1], '-z', n[2], '--plane', plane, '--ngrains', ng, '--solid-fraction', repr(sf / 960.), '-w', w]
        if n[2] == 1 and r.random() < .5:
            a += ['-d', 2]
        per = [r.randint(0, 1) for _ in range(3)]
        a += ['--periodicx', per[0], '--periodicy', per[1], '--periodicz', per[2]]
        p['pert'] = per[at]
        nsp = r.randint(1, 2)
        ints = lambda: [r.choice([0, 1, 2, 3, 5]) for _ in range(nsp)]
        s = lambda v: ','.join(map(str, v))
        cio = None
        if r.random() < .7:
            m = r.choice(['io', 'n', 'ni'])
            p['cmode'] = m
            ci, co, nom = ints(), ints(), ints()
            p['cin'] = ci
            if m != 'io':
                a += ['-c', s(nom)]
            if m in ('io', 'ni'):
                a += ['--concentration-in', s(ci)]
            if m == 'io':
                a += ['--concentration-out', s(co)]
            f = sf / 960.
            cio = [{'io': (ci[k], co[k]), 'n': (nom[k], nom[k]), 'ni': (ci[k], (nom[k] - ci[k] * f) / (1 - f))}[m] for k in range(nsp)]
        if ng == 2 or r.random() < .6:
            p['qlen'] = r.choice([2, 4]) if ng == 1 else r.choice([1, 2, 4])
            a += ['-q', p['qlen']]
            if ng == 1:
                p['qmode'] = 'given'
                p['q'] = self.uq(p['qlen'])
                a += ['--quatin=' + s(p['q'])]
            elif r.random() < .4:
                p['qmode'] = 'sharp'
                a += ['--smooth', 0]
            else:
                p['qmode'] = 'smooth'

        def log(res):
            ph = res['vars'].get('phase', dict(val=[]))['val']
            e = dict(p=p, ok=res['ok'])
            vol = n[0] * n[1] * n[2]
            # code 3: the distance in 1/24 of a cell
            e['phase'] = [prof(x, w / 6., lambda d: 24 * d) for x in ph] if w else [[1, 0] if x == 1. else [2, 0] if x == 0. else [0, 0] for x in ph]
            st = [1, n[0], n[0] * n[1]]
            e['phi'] = [encr(x, 1000) for x in ph]
            # the cell of the same height farthest from the grain boundaries
            e['ref'] = [c + 1 - ((c // st[at]) % n[at]) * st[at] for c in range(vol)]
            nc = sum(1 for v in res['vars'] if v.startswith('concentration'))
            e['mix'] = [[encr(x - (f * cio[k][0] + (1 - f) * cio[k][1]), 1000) for x, f in zip(res['vars']['concentration%d' % k]['val'], ph)] for k in range(nc)] if cio and nc == nsp else []
            if p['qmode'] in ('sharp', 'smooth'):
                q = quats(res, p['qlen'], lambda x: round(x, 4))
                lab = {}
                e['q'] = [lab.setdefault(tuple(x), len(lab)) for x in q]
                e['lab'] = [e['q'][(n[at] // 4 + g * (n[at] // 2)) * st[at]] if len(q) == vol else -1 for g in range(2)]
                if p['qmode'] == 'smooth' and len(set(e['lab'])) < 2:
                    pass
            else:
                e['q'], e['lab'] = quats(res, p['qlen'], lambda x: sgnsq(x, 1e-3)), []
            self.ctx.t.ev('boundary', **e)
        self.add('make_initial_grains_on_boundary.py', a + ['o.nc'], log, nc=['o.nc'])

    # ------------------------------------------------------------------
    def subst(self):
        r = self.r
        names = ['dt', 'end_time', 'temperature', 'epsilon_phi', 'dtx']
        lines, txt = [], []
        for _ in range(r.randint(1, 14)):
            m = r.random()
            ind = ' ' * r.randint(0, 4)
            if m < .15:
                lines.append([]); txt.append(r.choice(['', '  ']))
            elif m < .3:
                w = r.choice([['ModelParameters', '{'], ['}'], ['//', r.choice(names), '=', '3'], [r.choice(names) + '=3']])
                lines.append(w); txt.append(ind + ' '.join(w))
            else:
                w = [r.choice(names), '=', '%g' % (r.randint(0, 100) / 8.)] + (['//', 'comment'] if r.random() < .3 else [])
                lines.append(w); txt.append(ind + r.choice([' ', '  ']).join(w))
        p = dict(lines=lines, name=r.choice(names), val=r.choice(['7.5', '1.e-3', '"x"']))

        def log(res):
            o = res['out'].split('\n')[:-1] if res['ok'] else []
            self.ctx.t.ev('subst', p=p, out=[x.split() for x in o], same=[1 if k < len(o) and o[k] == t else 0 for k, t in enumerate(txt)])
        self.add('substituteInputParameter.py', ['i.input', p['name'], p['val']], log, files={'i.input': ''.join(t + '\n' for t in txt)}, keepout=True)

    def volfrac(self):
        r = self.r
        L, txt, t = [], [], 0
        for _ in range(r.randint(2, 25)):
            m = r.random()
            if m < .35:
                t += r.randint(1, 9)
                L.append(['cycle', t])
                txt.append('cycle # %d : t = %g' % (len(L), t / 8.))
            elif m < .7:
                v = r.randint(0, 16)
                L.append(['frac', v])
                txt.append('  Volume fraction of phase 0 = %g' % (v / 16.))
            else:
                L.append(['other', 0])
                txt.append(r.choice(['  Total energy [pJ]: 3.5', '', 'Regridding...', '----- Timestep dt = 0.5']))
        p = dict(log=L)

        def log(res):
            rows = []
            for x in res['out'].split('\n'):
                w = x.split(',')
                if len(w) == 2 and not x.startswith('#'):
                    try:
                        rows.append([enc(float(w[0]), 8), enc(float(w[1]), 16)])
                    except ValueError:
                        rows.append([BAD, BAD])
            self.ctx.t.ev('volfrac', p=p, rows=rows)
        self.add('volfracvstime.py', ['log'], log, files={'log': ''.join(x + '\n' for x in txt)}, keepout=True)


def run(ctx, n):
    g = Gen(ctx)
    only = os.environ.get('GENONLY')
    for f, k in (('sphere', 2), ('nuclei', 4), ('multi', 2), ('bilayer', 3), ('corners', .3), ('boundary', 2), ('subst', 1), ('volfrac', 1)):
        for _ in range(0 if only and f not in only.split(',') else max(3, int(n * k))):
            getattr(g, f)()
    g.go()


def centers(p):
    """positions of the grains of make_nuclei, only used to pick a cell inside each"""
    n, m = p['n'], p['ngrains']
    flat = n[2] == 1
    if m == 1:
        c = p['cen']
        return [list(c) + ([S] if len(c) < 3 else [])] if c else [[60 * n[0], 60 * n[1], 60 * n[2]]]
    if m == 2:
        return [[40 * n[0], 40 * n[1], 60 * n[2]], [80 * n[0], 80 * n[1], 60 * n[2]]]
    k = round(m ** .5) if flat else round(m ** (1 / 3.))
    C = lambda g, d: S * int((g + .5) * n[d] / k)
    if flat:
        return [[C(g // k, 0), C(g % k, 1), S] for g in range(m)]
    return [[C(g // (k * k), 0), C(g // k % k, 1), C(g % k, 2)] for g in range(m)]
