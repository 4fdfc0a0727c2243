"""phase mobilities of thin-interface models"""
import math, os, json, tempfile
from amk import Field, enc, encr
from cx import CxError
from mlevel import ML

LN2 = math.log(2.)
R = 8.314472


def kim(ctx, dim):
    r = ctx.rng
    m = ML(ctx, 'kim', dim, ratios=(1, 2), per=0)
    if m.l is None:
        return
    law = r.choice(['inf', 'inf', 'finite', 'anti', 'anti', 'three'])
    e, sw, k, M = r.randint(1, 2), r.choice([1, 2, 4]), r.randint(0, 1), r.choice([1, 2, 4])
    DL = r.choice([1, 2] if sw == 4 else [1, 2, 4])
    p = {'law': law, 'e': e, 'sw': sw, 'k': k, 'M': M, 'DL': DL, 'h': r.choice('ph'), 'q': 0, 'given': int(law == 'three' or r.random() < .4), 'A': r.randint(1, 3), 'za': [0, 0, 0], 'zb': [0, 0, 0]}
    three = law == 'three'
    if three:
        p['h'] = 'p'
        p['za'], p['zb'] = (r.choice([[1, 1, 0], [1, 0, 1], [2, 2, 0], [4, -2, 0], [2, -2, 1], [1, 0, 0], [4, 0, 0]]) for _ in 'ab')
    elif p['given']:
        p['za'] = [r.randint(20, 30), r.randint(-4, 4), r.randint(0, 2)]
    elif r.random() < .5:
        p['q'] = r.choice([1, 2])
    qT = p['q'] > 0
    T0, Tref = 512., float(r.choice([300, 512]))
    C = {'model': 'calphad' if three or r.random() < .4 else 'dilute', 'rhs_form': 'ebs', 'diffusion_type': 'temperature_dependent', 'nspecies': 2, 'D_liquid': float(DL), 'D_solid_A': 0., 'D_solid_B': 0.,
         'Q0_liquid': p['q'] * R * (T0 if qT else 0) * LN2, 'Q0_solid_A': 0., 'Q0_solid_B': 0., 'molar_volume': 1e-6 * 2 ** k}
    st = {'A00': float(p['A']), 'A10': float(p['A'] + 1), 'A20': float(p['A'] + 2)}
    if law == 'anti':
        C['antitrapping'] = True
    K = {'type': r.choice(['Kim', 'kim'])}
    if law in ('finite', 'anti'):
        K['interface_mobility'] = float(M)
    if p['given']:
        K[r.choice(['zeta', 'zetaLA']) if not three else 'zetaLA'] = [float(x) for x in p['za']]
        K['Tref'] = Tref
        if three:
            K['zetaLB'] = [float(x) for x in p['zb']]
    mod = {'norderp': 3 if three else 1, 'three_phases': three, 'epsilon_phi': math.sqrt(2.) * e, 'phi_well_scale': float(sw * sw), 'phi_interp_func_type': 'pbg' if p['h'] == 'p' else 'harmonic',
           'conc_interp_func_type': 'pbg', 'Temperature': {'type': 'scalar'}, 'PhaseMobility': K, 'ConcentrationModel': C}
    if three:
        mod['energy_three_args_interp_func_type'] = 'FolchPlapp2005'
        if r.random() < .06:      # no law for this one
            mod['energy_three_args_interp_func_type'] = 'Moelans2011'
            p['law'] = 'none'
    tmp = None
    try:
        if C['model'] == 'calphad':
            fd, tmp = tempfile.mkstemp(suffix='.json')
            os.write(fd, json.dumps({'standin': st}).encode())
            os.close(fd)
            C['Calphad'] = {'filename': tmp}
        else:
            C.update(liquidus_slope=-1., keq=.5, meltingT=1000., standin=st)
        gm = r.randint(0, 1)
        gc, gt = gm + r.randint(0, 1), gm + r.randint(0, 1)
        if three:
            pts = [(0, 0, 12), (12, 0, 0), (0, 12, 0), (4, 4, 4), (6, 6, 0), (3, 9, 0), (6, 0, 6), (2, 0, 10), (0, 5, 7), (4, 2, 6), (2, 5, 5), (6, 3, 3), (8, 2, 2), (1, 3, 8)]
        temp = (lambda: r.choice([256., 512., 1024.])) if qT else (lambda: Tref + (r.randint(0, 1) if three else r.randint(-2, 2)))
        logs = {}
        for name, n, g in (('phi', 3 if three else 1, gc), ('cl', 1, gc), ('ca', 1, gc), ('cb', 1, gc), ('temp', 1, gt)):
            if name == 'cb' and not three:
                continue
            m.w.var(name, 'c', n, g)
            m.w.fill(name, float('nan'))
            logs[name] = []
            for u in range(len(m.lev)):
                lo, hi = m.bound(u)
                f = Field(lo, hi, g, None, n if name == 'phi' else None)
                if name == 'temp':
                    f.fill(lambda c: temp())
                elif name == 'phi':
                    pick = {}
                    f.fill((lambda c, i: pick.setdefault(c, r.choice(pts))[i] / 12.) if three else (lambda c, i: r.randint(-1, 9) / 8.))
                else:
                    d = 1 if name == 'cl' else 0
                    f.fill(lambda c: r.randint(4 * d, 4 * d + 3) / 4.)
                m.w.put(name, [f], u)
                if name == 'phi':
                    logs[name].append(f.log(12, True) if three else [])
                elif name == 'temp':
                    logs[name].append(f.log(1. / 256) if qT else (lambda g2: (g2.fill(lambda c: f.a[f.idx(c)] - Tref), g2.log(1))[1])(Field(lo, hi, g)))
                else:
                    logs[name].append(f.log(4))
        m.w.var('mob', 'c', 1, gm)
        m.w.fill('mob', -77.)
        try:
            m.w.call('mobility', model=mod, visit={'rhs_output': False}, three=int(three), times=r.randint(1, 2))
            err = 0
        except CxError as x:
            if str(x).startswith('missing'):
                return
            if p['law'] != 'none':
                raise
            err = 1
        out, guard = [], 1
        for u in range(len(m.lev)):
            lo, hi = m.bound(u)
            o = Field(lo, hi, gm)
            o.fill(-77.)
            if m.w.get('mob', [o], u, 1):
                guard = 0
            v = Field(lo, hi, gm)
            S = 2 ** k * 163840.
            if three:
                v.fill(lambda c: o.a[o.idx(c)] * 47 * e * e / (160. * sw * sw) / 2 ** k * 65536)
            else:
                v.fill(lambda c: S / o.a[o.idx(c)] if o.a[o.idx(c)] else 0.)
            on = Field(lo, hi, gm)
            on.fill(lambda c: int(o.a[o.idx(c)] != -77.))
            out.append({'v': v.log(1, True), 'on': on.log(1)})
        ctx.t.ev('kim', dim=dim, lev=m.levels(), p=p, gm=gm, g=guard, err=err, inp=logs, out=out)
    except CxError as x:
        if not str(x).startswith('missing'):
            ctx.t.ev('kimerror', dim=dim, what=str(x)[:200])
    finally:
        if tmp:
            os.remove(tmp)
