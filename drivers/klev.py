"""order-parameter right-hand sides on nested levels"""
from amk import Field, SENT
from cx import CxError
from mlevel import ML
import krhs

S = 64


def phase(ctx, dim):
    r = ctx.rng
    m = ML(ctx, 'phase', dim, ratios=(1, 2, 2, 3), whole=True, per=0)
    if m.l is None:
        return
    kind = r.choice(['q', 'multi', 'three'])
    n = {'q': 1, 'multi': r.choice([2, 3]), 'three': 3}[kind]
    p = {'ty': kind, 'm': n, 'e': r.randint(1, 2), 'w': r.randint(1, 3), 'fe': r.randint(0, 1), 'iso': int(dim == 2 and r.random() < .4), 'well': r.choice('ds')}
    mod = {'norderp': n, 'epsilon_phi': float(p['e']) * (2 if kind == 'multi' else 1), 'phi_well_scale': p['w'] / 8. if kind == 'multi' else float(p['w']), 'phi_mobility': 1.,
           'phi_well_func_type': {'d': 'double', 's': 'single'}[p['well']], 'three_phases': kind == 'three',
           'stencil_type': 'isotropic' if p['iso'] else 'normal', 'Temperature': {'type': 'scalar'}}
    try:
        logs = {}
        for k, depth, ng, a, b in (('phi', n, 1, -2, 3), ('temp', 1, 1, 1, 9), ('mob', 1, 0, 1, 3), ('sl', 1, 0, -6, 6), ('sa', 1, 0, -6, 6), ('sb', 1, 0, -6, 6), ('ogm', 1, 0, 0, 5)):
            m.w.var(k, 'c', depth, ng)
            m.w.fill(k, 0.)
            m.f[k] = ('c', depth)
            logs[k] = []
            for u in range(len(m.lev)):
                lo, hi = m.bound(u)
                f = Field(lo, hi, ng, None, depth)
                f.fill(lambda c, *i: r.randint(a, b))
                m.w.put(k, [f], u)
                logs[k].append(f.log(1))
        for k in ('fl', 'fa', 'fb', 'visit'):
            m.w.var(k, 'c', 1, 0)
            m.w.fill(k, 0.)
        m.field('rhs', depth=n)
        m.field('flux', 's', n)
        m.w.call('phase_rhs', kind=kind, fe=p['fe'], flag=r.randint(0, 1), times=r.randint(1, 2), model=mod, visit={'rhs_output': False})
        q, hinv2 = [1] * dim, []
        for x, _ in m.lev:
            q = [a * b for a, b in zip(q, x)]
            hinv2.append([int(round(2 * a / b)) for a, b in zip(q, m.h)])
        rhs, b1 = m.log('rhs', S * (9 if kind == 'three' else 1), True, True)
        flux, b2 = m.log('flux', S, True, True)
        del logs['ogm'], logs['temp']
        ctx.t.ev('phaselev', dim=dim, lev=m.levels(), hinv2=hinv2, p=p, g=int(b1 + b2 == 0), inp=logs, rhs=rhs, flux=flux)
    except CxError as x:
        if not str(x).startswith('missing'):
            ctx.t.ev('phaseerror', dim=dim, what=str(x)[:200])
