"""refinement criteria: kernels, the model's detector on given gradients, the detector from the fields"""
from kern import *
import qops
from qops import op, nop
import kgrad


def thr(r, key, big=0):
    """threshold with exact quarter steps; logged times 4"""
    t = r.rng.choice([0., .25, .5, 1., 1.25, 2., 2.5, 3., 4., 5., 7.5]) * (2 if big else 1)
    r.p[key] = t
    r.lp[key] = int(4 * t)


def hh(r):
    r.lp['hh'] = [int(4 * x) for x in r.h]


def pt(n):
    def f(r, ctx):
        r.p['n'] = r.lp['n'] = n if n else r.rng.randint(1, 4)
        thr(r, 't'); hh(r)
    return f


G = lambda r: (r.p['n'], r.dim)
TAG = lambda: FS('tag', 'c', integer=True, init=lambda r, ctx: (lambda *c: r.rng.choice([0, 0, 1])))
small = lambda r, ctx: ctx.ints(-3, 3)
A = lambda r: fb(r.f['tag'].fs[0])
K('tag1', 'tagfromgrads', [FS('g', 'c', depth=G, gen=small)], [TAG()],
  lambda r: [*box(r), *comps(r.f['g']), *fb(r.f['g'].fs[0]), r.h, r.f['tag'], *A(r), 1, r.p['t']], params=pt(1), tag='tag')
K('tagq', 'tagfromquatgrads', [FS('g', 'c', depth=G, gen=small)], [TAG()],
  lambda r: [*box(r), *comps(r.f['g']), *fb(r.f['g'].fs[0]), r.p['n'], r.h, r.f['tag'], *A(r), 1, r.p['t']], params=pt(0), tag='tag')
KERN = ['tag1', 'tagq']


def amr(r):
    c = {}
    if 'tp' in r.p:
        c['Phi'] = {'threshold_tagged': 77., 'threshold_untagged': r.p['tp']}
    if 'tq' in r.p:
        c['Orient'] = {'threshold_tagged': 99., 'threshold_untagged': r.p['tq']}
    if 'eta' in r.p:
        c['Eta'] = {'threshold_tagged': 0., 'threshold_untagged': 0.}
    if not r.p['orient'] and r.rng.random() < .5 and 'tq' not in r.p:
        c['Orient'] = {'threshold_tagged': 0., 'threshold_untagged': 0.}
    return {'TaggingCriteria': c} if c else {}


def ptags(db):
    def f(r, ctx):
        r.lp.update(tp=-1, te=-1, tq=-1)
        r.p['n'] = r.lp['n'] = r.p['depth'] = r.rng.choice([1, 2, 4])
        r.p['orient'] = True
        for k in ('tp', 'te', 'tq') if not db else ('tp', 'tq'):
            if r.rng.random() < .7:
                thr(r, k)
        if db:
            if r.rng.random() < .3:
                r.p['eta'] = 1
            if 'tq' not in r.p:
                r.p['orient'] = r.rng.random() < .5
        hh(r)
    return f


def more(r):
    if 'db' in r.p:
        return {'amr': amr(r)}
    return {k: r.p[k] for k in ('tp', 'te', 'tq') if k in r.p}


def dbsel(f, g):
    def h(r, ctx):
        if r.rng.random() < .5:
            r.p['db'] = 1
            f(r, ctx)
        else:
            g(r, ctx)
    return h


MP = lambda r: {} if r.p['orient'] else {'H_parameter': -1.}
op('m_tags', 'tags', [FS('gp', 'c', depth='dim', gen=small), FS('ge', 'c', depth='dim', gen=small), FS('gq', 'c', depth=G, gen=small)], [TAG()], ('tag', None),
   ids={'phase_grad_cell': 'gp', 'eta_grad_cell': 'ge', 'quat_grad_cell': 'gq'}, params=dbsel(ptags(True), ptags(False)), more=more, mp=MP, ev='tags')


def pdet(r, ctx):
    ptags(True)(r, ctx)
    for k in ('tp', 'tq'):
        if k in r.p:                                # compared with twice the difference
            t = r.rng.choice([0., .5, 1., 1.5, 2., 2.5, 3., 4., 5., 6.5])
            r.p[k] = t
            r.lp[k] = int(2 * t)
    r.p['db'] = 1


N = lambda r: r.p['n']
op('m_detect', 'detect', [FS('phi', 'c', gen=small), FS('q', 'c', depth=N, gen=small)], [TAG()], ('tag', None),
   ids={'phase': 'phi', 'quat': 'q', 'phase_scratch': 'ps', 'quat_scratch': 'qs', 'phase_diffs': 'pd', 'quat_diffs': 'qd', 'phase_grad_cell': 'pg', 'quat_grad_cell': 'qg'},
   params=pdet, more=more, mp=MP, ev='detect', per=lambda r: [1] * r.dim,
   extra=lambda r: [('ps', 'c', 1, 1 + r.rng.randint(0, 1), NAN), ('qs', 'c', r.p['n'], 1 + r.rng.randint(0, 1), NAN), ('pd', 's', 1, 1, NAN), ('qd', 's', r.p['n'], 1, NAN),
                    ('pg', 'c', r.dim, 0, NAN), ('qg', 'c', r.p['n'] * r.dim, 0, NAN)])
OPS = ['m_tags', 'm_detect']
