"""composite weights, integrals over several levels, sub-domain diagnostics"""
from amk import encr
from cx import CxError
from mlevel import ML
MODULE = 'TraceAmr'
DIMS = (2,)
CXDIMS = (2, 3)
CX = ['qops']
MC = [('MCAmr', 'MCAmr'), ('MCAmr', 'MCAmr4', 'thorough')]
ASSUMPTIONS = ['up to three levels, ratios 1 to 3 per direction, up to six boxes each; integer fields, phases not negative']
MODEL = {'H_parameter': 1., 'orient_mobility': 1., 'epsilon_orient': 1., 'epsilon_phi': 1., 'phi_well_scale': 1., 'phi_mobility': 1., 'Temperature': {'type': 'scalar'}}


def one(ctx, dim, kind):
    m = ML(ctx, 'qops', dim, lo0=kind == 'subdomain')
    if m.l is None:
        return
    r = ctx.rng
    ctx.t.scenario()
    S = m.scale
    g = lambda a, b: (lambda l, c, k: float(r.randint(a, b)))
    nc, np_ = r.choice([1, 2, 3]), r.choice([1, 2, 3])
    base = {'a': '', 'b': '', 'model': MODEL}
    W = (S, True)
    try:
        if kind == 'weights':
            m.field('w', ng=r.randint(0, 1)); m.field('work')
            m.field('conc', depth=nc, ng=r.randint(0, 1), gen=g(0, 6)); m.field('phi', depth=np_, ng=r.randint(0, 1), gen=g(0, 3))
            ids = {'weight': 'w', 'conc': 'conc', 'phase': 'phi', 'work': 'work'}
            if np_ == 1 and r.random() < .7:
                m.field('scr', ng=r.randint(0, 1)); ids['phase_scratch'] = 'scr'
            th = r.random() < .6
            if th:
                m.field('cp', gen=g(1, 3)); m.field('temp', gen=g(1, 4)); m.field('fl'); ids.update(cp='cp', temperature='temp', f_l='fl')
            la, comp = r.randint(0, 3), r.randint(1, nc)
            m.w.call('m_op', op='weights', ids=ids, ncomp=nc, nphi=np_, latent=float(la), comp=comp - 1, **base)
            res = {k: [encr(x, S) for x in m.w.res(k)] for k in ('integral', 'fraction', 'volume', 'phaseconc', 'thermal', 'depth') if m.w.res(k) is not None}
            ins = {'conc': (1, False, True), 'phi': (1, False, True)}
            if th:
                ins.update(cp=(1,), temp=(1,))
            m.event('weights', ins, {'w': W}, {'nc': nc, 'np': np_, 'la': la, 'comp': comp}, res)
        elif kind == 'subdomain':
            m.field('w'); m.field('wd', ng=r.randint(0, 1)); m.field('work')
            na, nb = r.randint(1, 2), r.randint(0, 1)
            m.field('phi', depth=na + nb + 1, gen=g(0, 1))
            f = [r.randint(1, 16) for _ in range(dim)]
            m.w.call('m_op', op='weights_diag', ids={'weight': 'w', 'weight_diagnostics': 'wd', 'phase': 'phi', 'work': 'work'}, sub=[x / 16. for x in f], normA=na, normB=nb, **base)
            d = m.w.res('density')[0]
            m.event('subdomain', {'phi': (1, False, True)}, {'w': W, 'wd': W}, {'f': f, 'n': m.n, 'void': na + nb + 1}, {'density': [encr(d, 1024)]} if d == d else {})
        else:
            m.field('conc', depth=nc, gen=g(-5, 5)); m.field('dst', ng=r.randint(0, 1))
            k = r.randint(1, 3)
            m.field('s', 's', depth=k, ng=r.randint(0, 1), gen=g(-5, 5)); m.field('sd', 's', ng=r.randint(0, 1))
            na = r.randint(1, 3); m.field('avg', depth=na, ng=r.randint(0, 1))
            comp, fr, to = r.randint(1, nc), r.randint(1, k), r.randint(1, na)
            m.w.call('m_op', op='copies', ids={}, comp=comp - 1, to=to - 1, **dict(base, **{'from': fr - 1}))
            m.event('copies', {'conc': (1, False, True), 's': (1, False, True)}, {'dst': (1,), 'avg': (12, False, True), 'sd': (1,)}, {'comp': comp, 'from': fr, 'to': to})
    except CxError as x:
        if str(x).startswith('missing'):
            return
        ctx.t.ev('weights', dim=dim, lev=m.levels(), p={'z': 0}, g=0, out={'z': 0}, res={'z': 0}, err=str(x)[:200], **{'in': {'z': 0}})


def drive(ctx):
    for dim in (2, 3):
        for i in range(ctx.n(40 if dim == 2 else 14, 400)):
            one(ctx, dim, 'weights')
            one(ctx, dim, 'subdomain')
            if i % 2:
                one(ctx, dim, 'copies')
