"""scenarios for the parameters of a model: random input databases"""
import json
from amk import encr
from cx import World, lib, CxError

RES = {'molar_volume_liquid': 4096e6, 'molar_volume_solid_A': 4096e6, 'molar_volume_solid_B': 4096e6, 'thermal_diffusivity': 4096e-8}


class In:
    def __init__(self, r):
        self.r, self.n, self.i, self.s, self.f, self.a, self.d, self.unit = r, {}, {}, {}, {}, {}, [], {}

    def num(self, k, lo=1, hi=40, p=1., unit=1.):
        if self.r.random() < p:
            self.n[k] = self.r.randint(lo, hi)
            self.unit[k] = unit
        return self

    def val(self, k, v, unit=1.):
        self.n[k] = v
        self.unit[k] = unit

    def alias(self, ks, p=1., **kw):
        if self.r.random() < p:
            self.num(self.r.choice([ks[0]] + ks), **kw)

    def word(self, k, vs, p=.5):
        if self.r.random() < p:
            self.s[k] = self.r.choice(vs)

    def flag(self, k, p=.5):
        if self.r.random() < p:
            self.f[k] = self.r.random() < .6

    def arr(self, k, n, lo=-20, hi=40):
        self.a[k] = [self.r.randint(lo, hi) for _ in range(n)]
        self.unit[k] = 1.

    def nested(self):
        db = {'unused': 1}

        def at(path, v):
            q = db
            for x in path[:-1]:
                q = q.setdefault(x, {'unused': 1})
            q[path[-1]] = v
        for x in self.d:
            at(x.split('.'), {'unused': 1})
        for k, v in self.n.items():
            at(k.split('.'), v / 16. * self.unit[k])
        for k, v in self.a.items():
            at(k.split('.'), [x / 16. * self.unit[k] for x in v])
        for m in (self.i, self.s, self.f):
            for k, v in m.items():
                at(k.split('.'), v)
        return db


def build(r, dim):
    q = In(r)
    q.flag('three_phases', .2)
    if r.random() < .4:
        q.i['norderp'] = r.randint(1, 5)
    if r.random() < .3:
        q.i['norderp_A'] = r.choice([-1, 0, 1, 1, 2, 3, 4])
    A = q.i.get('norderp_A', 1 if q.i.get('norderp', 1) == 1 else q.i['norderp'] - 1)
    phaseB = q.f.get('three_phases', False) or (A > 0 and q.i.get('norderp', 1) - A - 1 > 0)
    if r.random() < .6:
        q.val('H_parameter', r.choice([-16, -5, 0, 1, 7, 16, 20]))
    # interface
    u = r.random()
    phase = True
    if u < .45:
        q.d.append('Interface')
        if r.random() < .6:
            q.num('Interface.sigma').val('Interface.delta', r.choice([1, 2, 3, 4, 8, 11, 16, 30]))
        else:
            q.num('Interface.epsilon_phi').num('Interface.phi_well_scale')
    elif u < .9:
        q.alias(['epsilon_phi', 'epsilon_phase', 'epsilon_parameter'])
        q.alias(['phi_well_scale', 'scale_energy_well'])
    else:
        phase = False
    q.num('epsilon_anisotropy', p=.2, lo=-3)
    q.num('q0_phi_mobility', p=.3)
    u = r.random()
    if u < .5:
        q.word(r.choice(['phi_well_func_type', 'energy_well_func_type']), ['single', 's', 'double', 'd', 'd', 'double', 'x'][:6 if r.random() < .9 else 7])
    bad = r.random() < .12     # names that mean nothing
    IN = ['l', 'L', 'linear', 'Linear', 'p', 'P', 'pbg', 'PBG', 'h', 'H', 'harmonic'] + (['xyz', 'u'] if bad else [])
    q.word(r.choice(['phi_interp_func_type', 'energy_interp_func_type']), IN, .6)
    q.word('conc_interp_func_type', IN, .5)
    q.word('energy_three_args_interp_func_type', ['m', 'M', 'f', 'F', 'folch'] + (['q'] if bad else []))
    q.word('conc_three_args_interp_func_type', ['m', 'M', 'f', 'F', 'moelans'] + (['q'] if bad else []))
    q.word('diffusion_interp_func_type', ['l', 'linear', 'P', 'pbg', 'b', 'biased'] + (['q'] if bad else []))
    AV = ['a', 'arithmetic', 'h', 'harmonic'] + (['g'] if bad else [])
    q.word('avg_func_type', AV)
    q.word('diffq_avg_func_type', AV)
    q.flag('use_diffs_to_compute_flux')
    q.word('stencil_type', ['normal', 'isotropic'])
    if r.random() < .4:
        q.d.append('MovingFrame')
        q.num('MovingFrame.velocity', p=.6, lo=-20)
        q.flag('MovingFrame.adapt')
        q.flag('MovingFrame.upwind', .3)
    if A > 0 and r.random() < .4:
        q.d.append('RigidBody')
        if r.random() < .5:
            q.arr('RigidBody.external_force', dim)
        for k in ('mobility', 'stiffness', 'threshold'):
            q.num('RigidBody.' + k, p=.5, lo=0)
        q.num('RigidBody.equil_gb', p=1. if q.n.get('RigidBody.threshold', 0) > 0 else .3)
    # orientation
    H = q.n.get('H_parameter', -16)
    q.num('noise_amplitude', p=.4)
    if H > 0 or r.random() < .2:
        u = r.random()
        if u < .3:
            q.val('tau_quat', r.choice([1, 2, 4, 8, 16, 32, 64]))
        else:
            q.alias(['orient_mobility', 'quat_mobility'], .97)
        q.alias(['epsilon_orient', 'epsilon_q', 'epsilon_quat'], .97)
        q.alias(['min_orient_mobility', 'min_quat_mobility'], .5)
        q.alias(['orient_grad_floor', 'quat_grad_floor'], .5)
        q.word('orient_grad_floor_type', ['max', 'tanh', 'sqrt'])
        q.word('quat_grad_modulus_type', ['cells', 'sides'])
        OI = ['quadratic', 'q', 'pbg', 'p', 'linear', 'l', 't', 's', '3', 'c', 'constant', 'w'][:-1] + ['w'] + (['y'] if bad else [])
        q.word(r.choice(['diff_interp_func_type', 'orient_interp_func_type', 'orient_interp_func_type1', 'orient_interp_func_type1']), OI, .6)
        q.word('orient_interp_func_type2', ['constant', 'quadratic', 'p'])
        q.word(r.choice(['quat_mobility_func_type', 'orient_mobility_func_type']), ['pbg', 'p', 'inverse', 'i', 'exp', 'e'] + (['z'] if bad else []), .7)
        q.alias(['max_orient_mobility', 'max_quat_mobility'], .5)
        q.alias(['exp_scale_orient_mobility', 'exp_scale_quat_mobility'], .5)
    # composition
    conc = r.random() < .7
    C = 'ConcentrationModel.'
    model = None
    ncomp = 0
    if conc:
        q.d.append('ConcentrationModel')
        model = r.choice(['calphad', 'quadratic', 'linear', 'linear', 'independent', 'dilute', 'dilute', 'cahn_hilliard', 'wang_sintering'] + (['ideal'] if bad else []))
        q.s[C + 'model'] = model
        ncomp = 1
        if r.random() < .4:
            q.i[C + 'nspecies'] = r.choice([2, 2, 3])
            ncomp = q.i[C + 'nspecies'] - 1
        q.word(C + 'rhs_form', ['kks', 'ebs', 'ebs', 'cahn_hilliard', 'spinodal', 'uniform', 'Beckermann', 'beckermann'] + (['other'] if bad else []), .7)
        form = 'wang' if model == 'wang_sintering' else q.s.get(C + 'rhs_form', 'kks')
        q.word(C + 'ebs_stencil', ['regular', 'isotropic', 'order4'] + (['order6'] if bad else []))
        q.word(C + 'diffusion_type', ['composition_dependent', 'mobility', 'temperature_dependent'])
        q.num(C + 'D_liquid', p=.98)
        if phaseB or form in ('uniform', 'Beckermann', 'beckermann') or r.random() < .5:
            q.num(C + 'D_solid_A', p=.98)
            q.num(C + 'D_solid_B', p=.98 if phaseB else .2)
            for k in ('Q0_solid_A', 'Q0_solid_B'):
                q.num(C + k, p=.5)
        else:
            q.num(C + 'D_solid')
            q.num(C + r.choice(['Q0_solid', 'Q0_solid_A']), p=.5)
        for k in ('Q0_liquid', 'D0_LA', 'Q0_LA', 'D0_AA', 'Q0_AA', 'D0_LB', 'Q0_LB', 'D0_AB', 'Q0_AB', 'D0_BB', 'Q0_BB', 'mobility', 'concL_ref', 'concA_ref', 'concB_ref'):
            q.num(C + k, p=.4)
        q.word(C + 'avg_func_type', AV, .4)
        if r.random() < .3:
            q.num(C + 'gradT_Q0', lo=-20)
            q.num(C + 'gradT_Q1', lo=-20, p=.98)
        q.flag(C + 'antitrapping')
        q.flag(C + 'gc')
        q.flag(C + 'init_phase_conc_eq')
        q.word(C + 'partition_coeff', ['none', 'Aziz', 'uniform'], .6)
        part = q.s.get(C + 'partition_coeff', 'none')
        q.num(C + 'vd', p=.98 if part == 'Aziz' else .2)
        if part == 'uniform' or model == 'dilute' or r.random() < .4:
            q.val(C + 'keq', r.choice([8, 12, 14, 4]))
        q.word(C + 'phase_concentration_model', ['none', 'kks'] + (['partition'] if part != 'none' else []), .3)
        if model == 'linear':
            q.num(C + 'liquidus_slope', p=.6, lo=-20)
            q.num(C + 'average_concentration', p=.98)
            q.num(C + 'alpha', p=.98, lo=-4)
            q.num(C + 'gamma', p=.6, lo=-10)
        if model == 'dilute':
            q.val(C + 'liquidus_slope', -r.randint(1, 40))
            q.val(C + 'meltingT', 16 * r.choice([64, 512, 1024]))
        if model == 'wang_sintering':
            q.d.append(C + 'WangSintering')
            for k in ('A', 'B', 'beta'):
                q.num(C + 'WangSintering.' + k, p=.98)
        if form == 'cahn_hilliard' or r.random() < .1:
            q.d.append(C + 'CahnHilliard')
            for k in ('ca', 'cb', 'well_scale', 'kappa'):
                q.num(C + 'CahnHilliard.' + k, p=.98)
        if r.random() < .3:
            q.arr(C + 'initc_in_phase', 2 * ncomp, lo=0)
    else:
        q.num('bias_well_alpha', p=.3, lo=-2, hi=5)
        q.num('bias_well_gamma', p=.3)
    # temperature
    T = ''
    if r.random() < .6:
        q.d.append('Temperature')
        T = 'Temperature.'
        q.s[T + 'type'] = r.choice(['scalar', 'Scalar', 'frozen', 'Frozen', 'gaussian', 'Gaussian', 'constant', 'Constant', 'heat', 'heat', 'heat', 'Heat'] + (['boiling'] if bad else []))
        ty = q.s[T + 'type']
    else:
        q.word('temperature_type', ['scalar', 'frozen', 'gaussian', 'constant', 'heat', 'heat'] + (['boiling'] if bad else []), .7)
        ty = q.s.get('temperature_type', 'scalar')
    if r.random() < .5:
        q.val(T + 'meltingT', 16 * r.choice([1, 2, 3, 5, 64]))
    heat = ty in ('heat', 'Heat')
    latent = r.random() < .3
    beta = phase and model == 'dilute' and r.random() < .5
    if heat or latent or beta or r.random() < .3:
        V = (lambda k: q.val(k, r.choice([8, 16, 32, 64, 128]), 1e-6))
        root = '' if not conc or r.random() < .6 else C
        if r.random() < .6:
            V(root + 'molar_volume')
        else:
            V(root + 'molar_volume_liquid'); V(root + 'molar_volume_solid_A')
            if r.random() < .5:
                V(root + 'molar_volume_solid_B')
        if root == '' and conc and r.random() < .3:
            V(C + 'molar_volume')
    if latent:
        q.num(T + 'latent_heat')
    if heat:
        q.word(T + 'equation_type', ['steady', 'unsteady', 'unsteady'], .8)
        q.d.append(T + 'cp')
        for s in 'ABC'[:1 + ncomp] + ('C' if r.random() < .2 else ''):
            q.d.append(T + 'cp.Species' + s)
            q.num(T + 'cp.Species%s.a' % s, p=.99)
            q.num(T + 'cp.Species%s.b' % s, p=.5, lo=-20)
            q.num(T + 'cp.Species%s.dm2' % s, p=.5, lo=-20)
        q.num(T + 'thermal_diffusivity', p=.98)
        if q.s.get(T + 'equation_type', 'steady') == 'steady' or r.random() < .3:
            q.word(T + 'heat_source_type', ['composition', 'composition', 'gaussian'], .6)
            if T + 'heat_source_type' in q.s and r.random() < .98:
                q.arr(T + 'source', 1 + ncomp)
    # mobility
    if phase:
        M = 'PhaseMobility.'
        if r.random() < .55 or beta:
            q.d.append('PhaseMobility')
            if beta or r.random() < .6:
                q.s[M + 'type'] = r.choice(['Kim', 'kim'])
                if beta:
                    q.val(M + 'kinetics_coefficient', r.choice([1, 2, 4, 8, 16]))
                else:
                    q.num(M + 'interface_mobility', p=.6)
                    if r.random() < .6:
                        q.arr(M + r.choice(['zeta', 'zetaLA']), 3, lo=1, hi=9)
                        if r.random() < .98:
                            q.val(M + 'Tref', 16 * r.randint(1, 12))
                        if r.random() < .5:
                            q.arr(M + 'zetaLB', 3, lo=1, hi=9)
            else:
                q.word(M + 'type', ['scalar'] + (['vector'] if bad else []))
                q.num(M + 'value', p=.98)
        else:
            q.num('phi_mobility', p=.98)
    # free energies
    F = ''
    if r.random() < .6:
        q.d.append('FreeEnergyModel')
        F = 'FreeEnergyModel.'
    q.word(F + 'type', ['scalar', 's', 'none', 'linear'], .7)
    if q.s.get(F + 'type', 'none')[0] == 's':
        q.num(F + 'free_energy_liquid', p=.98, lo=-20)
        if q.f.get('three_phases', False):
            for k in ('free_energy_solid_A', 'free_energy_solid_B'):
                q.num(F + k, p=.98, lo=-20)
        else:
            q.num(F + 'free_energy_solid', p=.98, lo=-20)
    if r.random() < .6:
        q.d.append('Visit')
        for k in ('extra_output', 'energy_output', 'grain_output', 'velocity_output', 'rhs_output'):
            q.flag('Visit.' + k)
    return q


def params(ctx, dim):
    r = ctx.rng
    l = lib(ctx, 'params', dim)
    if l is None:
        return
    w = World(l, dim)
    q = build(r, dim)
    db = q.nested()
    T = [r.randint(1, 14) for _ in range(3)]
    kw = {'db': json.dumps(db), 'fill': r.choice([0, 255, 127, 63]), 'T': [float(x) for x in T]}
    if 'Visit' in q.d:
        kw['visit'] = json.dumps(db.pop('Visit'))
        kw['db'] = json.dumps(db)
    w.new([0] * dim, [1] * dim, [1.] * dim)
    fe = {'dim': dim, 'n': dict(q.n, _=0), 'i': dict(q.i, _=0), 's': dict(q.s, _=''), 'f': dict(q.f, _=False), 'a': dict(q.a, _=[]), 'd': q.d, 'T': T}
    try:
        w.call('params', **kw)
    except CxError as x:
        if str(x).startswith('missing'):
            return
        ctx.t.ev('params', err=1, o={'_': 0}, t={'_': ''}, v={'_': []}, **fe)
        return
    o, v, t = {}, {}, {}
    names, texts = w.text('names').split(), w.text('texts').split()
    for k in names:
        x = w.res(k)
        if k in ('T_source', 'Q_heat_transport', 'cp', 'force', 'initc'):
            v[k] = [encr(y, 4096) for y in x]
        elif k == 'zeta':
            v['zetaLA'], v['zetaLB'], v['zeta'] = ([encr(y, 4096) for y in x[j::3]] for j in range(3))
        else:
            o[k] = encr(x[0], RES.get(k, 4096))
            if k in ('surfaceEnergy', 'interfacialWidth'):
                o[k + '2'] = encr(x[0] * x[0], 4096)
            if k == 'epsilon_phase':
                o['epsilon2'] = encr(x[0] * x[0], 4096)
            if k == 'interfaceMobility':
                o['interfaceMobilityR'] = encr(x[0] * 8.314472, 4096)
    for k in texts:
        t[k] = w.text(k)
    ctx.t.ev('params', err=0, o=o, t=t, v=v, **fe)
