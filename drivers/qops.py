"""The model's own grid operations (QuatModel and the small strategy classes around it) on tiled levels."""
from kern import *
from cx import CK
import kgrad, kquat

_clock = [0]
D = lambda r: r.p['depth']


def cache(r):
    """a time never seen with CACHE, or the last one with FORCE: both must compute"""
    if r.rng.random() < .5 or not _clock[0]:
        _clock[0] += 1
        return {'time': float(_clock[0]), 'cache': r.rng.randint(0, 1)}
    return {'time': float(_clock[0]), 'cache': 1}


def model(r, **kw):
    d = {'H_parameter': 1., 'orient_mobility': 1., 'epsilon_orient': 1., 'epsilon_phi': 1., 'phi_well_scale': 1., 'phi_mobility': 1., 'Temperature': {'type': 'scalar'}}
    d.update(kw)
    return d


def op(key, name, ins, outs, a=None, b=None, vias=('direct',), ids=None, more=None, params=None, visit=None, mp=None, ev=None, **kw):
    """a, b: (field, member) -- passed by name or left to the model's member"""
    def args(r):
        i = dict(ids(r) if callable(ids) else ids or {})
        c = {'op': name, 'via': r.rng.choice(vias), 'qlen': r.p.get('depth', 1), 'model': model(r, **(mp(r) if mp else {}))}
        c.update(cache(r))
        for k, x in (('a', a), ('b', b)):
            if x:
                f, mem = x
                c[k] = f
                if mem and r.rng.random() < .4:
                    i[mem] = f
                    c[k] = ''
        if visit and r.lp.get('visit'):
            c['visit'] = {'extra_output': True}
        if more:
            c.update(more(r))
        c['ids'] = i
        return c
    return CK(key, 'qops', 'm_op', ins, outs, args, params=params, ev=ev, **kw)


def seq(*fs):
    def f(r, ctx):
        for g in fs:
            g(r, ctx)
    return f


def nop(r, ctx):
    r.p['depth'] = 1


def vis(r, ctx):
    r.lp['visit'] = r.rng.randint(0, 1)


def same(key, n=0, **kw):
    """field specs of a registered kernel"""
    import copy
    f = copy.copy((REG[key].ins + REG[key].outs)[n])
    for k, v in kw.items():
        setattr(f, k, v)
    return f


def cellcopy(name, depth):
    return FS(name, 'c', depth=depth, fixed_ng=True)


# ---- scalar fields -----------------------------------------------------------------------------------------------
op('m_phase_diffs', 'phase_diffs', [same('diffs')], [same('diffs', 1), cellcopy('cell', 'dim')], ('v', 'phase_scratch'), ('diff', 'phase_diffs'),
   ids={'phase_diffs_cell': 'cell'}, params=seq(nop, vis), visit=True, ev='diffs', ghosts=2)
op('m_eta_diffs', 'eta_diffs', [same('diffs')], [same('diffs', 1)], ('v', 'eta_scratch'), ('diff', 'eta_diffs'), params=nop, ev='diffs', ghosts=2)
op('m_var_diffs', 'var_diffs', [same('diffs')], [same('diffs', 1)], ('v', None), ('diff', None), params=nop, vias=('direct', 'level'), ev='diffs', ghosts=2)
op('m_phase_grad_cell', 'phase_grad_cell', [same('grad_cell')], [same('grad_cell', 1, fixed_ng=True)], ('diff', 'phase_diffs'), ('grad', 'phase_grad_cell'), params=nop,
   vias=('direct', 'level'), ev='grad_cell')
op('m_var_grad_cell', 'var_grad_cell', [same('grad_cell')], [same('grad_cell', 1, fixed_ng=True)], ('diff', None), ('grad', None), params=nop, ev='grad_cell')
op('m_var_grad_side', 'var_grad_side', [same('grad_side')], [same('grad_side', 1, fixed_ng=True)], ('diff', 'phase_diffs'), ('grad', 'phase_grad_side'), params=nop, ev='grad_side')

# ---- orientations ------------------------------------------------------------------------------------------------
QV = ('direct', 'simple', 'level', 'simplelevel')
DD = lambda r: r.p['depth'] * r.dim
op('m_quat_diffs', 'quat_diffs', [same('quatdiffs')], [same('quatdiffs', 1), cellcopy('cell', DD), cellcopy('cell2', DD)], ('q', 'quat_scratch'), ('diff', 'quat_diffs'),
   ids={'quat_diffs_cell': 'cell', 'quat_nonsymm_diffs_cell': 'cell2'}, params=seq(kgrad.depthp(), vis), visit=True, vias=QV, ev='quatdiffs', ghosts=2)
op('m_quat_grad_cell', 'quat_grad_cell', [same('quatgrad_cell', ng=1)], [same('quatgrad_cell', 1, fixed_ng=True)], ('diff', 'quat_diffs'), ('grad', 'quat_grad_cell'),
   params=kgrad.depthp(), vias=QV, ev='quatgrad_cell')
op('m_quat_grad_side', 'quat_grad_side', [same('quatgrad_side')], [same('quatgrad_side', 1)], ('diff', 'quat_diffs'), ('grad', 'quat_grad_side'),
   params=kgrad.depthp(), vias=QV, ev='quatgrad_side')
op('m_quat_grad_side_iso', 'quat_grad_side', [same('quatgrad_side_isotropic')], [same('quatgrad_side_isotropic', 1)], ('diff', 'quat_diffs'), ('grad', 'quat_grad_side'),
   params=kgrad.depthp(), vias=QV, mp=lambda r: {'stencil_type': 'isotropic'}, ev='quatgrad_side_isotropic', dims=(2,))
op('m_quat_mod', 'quat_mod', [same('mod_cell', fixed_ng=True)], [same('mod_cell', 1, fixed_ng=True)], ('grad', 'quat_grad_cell'), ('mod', 'quat_grad_modulus'),
   params=kgrad.depthp(), vias=QV, ev='mod_cell')
op('m_quat_mod_sides', 'quat_mod_sides', [same('mod_compact', fixed_ng=True)], [same('mod_compact', 1, fixed_ng=True)], ('grad', 'quat_grad_side'), ('mod', 'quat_grad_modulus'),
   params=kgrad.depthp(), vias=('direct', 'simple', 'level'), ev='mod_compact')
op('m_smooth', 'smooth', [same('smoothquat'), same('smoothquat', 1), same('smoothquat', 2)], [same('smoothquat', 3, fixed_ng=True)], vias=('level',),
   ids={'quat_scratch': 'q', 'quat_diffs': 'diff', 'phase': 'phase', 'quat': 'qout'}, more=lambda r: {'thr': r.p['thr']}, params=kgrad.smq_p, ev='smoothquat')


def smooth_full_setup(r, ctx):
    pass


def velh(r, ctx):
    kgrad.vel_setup(r, ctx)
    r.h = [0.02 / r.lp['thr'] * (1 if d == 0 else r.rng.choice([1, 2, .5])) for d in range(r.dim)]
    r.ih = [1] * r.dim


def velp(r, ctx):
    kgrad.vel_p(r, ctx)
    nop(r, ctx)


op('m_velocity', 'velocity', [same('velocity'), same('velocity', 1)], [same('velocity', 2, rnd=True)], ('phidot', None), ids={'phase_grad_cell': 'grad', 'velocity': 'vel'},
   params=velp, setup=velh, ev='velocity')
C01 = ['m_phase_diffs', 'm_eta_diffs', 'm_var_diffs', 'm_phase_grad_cell', 'm_var_grad_cell', 'm_var_grad_side', 'm_quat_diffs', 'm_quat_grad_cell', 'm_quat_grad_side',
       'm_quat_grad_side_iso', 'm_quat_mod', 'm_quat_mod_sides', 'm_smooth', 'm_velocity']

# ---- orientations with crystal symmetry --------------------------------------------------------------------------
SY = {'mp': lambda r: {}, 'more': lambda r: {'symm': True}}
D2 = lambda r: 2 * r.p['depth']
IQ = lambda: same('quatdiffs_symm', 1)
SQ = lambda **k: dict({'vias': QV, 'more': lambda r: {'symm': True}}, **k)
op('m_qdiffs_symm', 'quat_diffs', [same('quatdiffs_symm'), IQ()],
   [FS('diff', 's', depth=D2, ng=1, scale=kquat.SC(1024), rnd=True), FS('cell', 'c', depth=DD, fixed_ng=True, scale=kquat.SC(1024), rnd=True),
    FS('cell2', 'c', depth=DD, fixed_ng=True, scale=kquat.SC(1024), rnd=True)], ('q', 'quat_scratch'), ('diff', 'quat_diffs'),
   ids={'quat_symm_rotation': 'iq', 'quat_diffs_cell': 'cell', 'quat_nonsymm_diffs_cell': 'cell2'}, visit=True, params=seq(kquat.qparams(), vis), ev='c_qdiffs', ghosts=2, **SQ())
op('m_qgrad_cell_symm', 'quat_grad_cell', [FS('diff', 's', depth=D2, ng=1, need=interior, gen=kquat.gdf), IQ()], [same('quatgrad_cell_symm', 2, fixed_ng=True)],
   ('diff', 'quat_diffs'), ('grad', 'quat_grad_cell'), ids={'quat_symm_rotation': 'iq'}, params=kquat.qparams(), ev='quatgrad_cell_symm', **SQ())
op('m_qgrad_side_symm', 'quat_grad_side', [FS('diff', 's', depth=D2, ng=1, need=star(1), gen=kquat.gdf), IQ()], [same('quatgrad_side_symm', 2)],
   ('diff', 'quat_diffs'), ('grad', 'quat_grad_side'), ids={'quat_symm_rotation': 'iq'}, params=kquat.qparams(), ev='quatgrad_side_symm', **SQ())
op('m_qgrad_side_symm_iso', 'quat_grad_side', [FS('diff', 's', depth=D2, ng=1, need=boxn(1), gen=kquat.gdf), IQ()], [same('quatgrad_side_symm_iso', 2)],
   ('diff', 'quat_diffs'), ('grad', 'quat_grad_side'), ids={'quat_symm_rotation': 'iq'}, params=kquat.qparams(), ev='quatgrad_side_symm_iso', dims=(2,),
   mp=lambda r: {'stencil_type': 'isotropic'}, **SQ())
op('m_rotations', 'rotations', [same('quat_symm_rotation')], [same('quat_symm_rotation', 1, init=None, pre=True), FS('rotcell', 'c', depth='dim', fixed_ng=True, integer=True)],
   ids={'quat_scratch': 'q', 'quat_symm_rotation': 'rot', 'quat_symm_rotation_cell': 'rotcell'}, params=seq(kquat.qparams(), vis), visit=True, ev='quat_symm_rotation', ghosts=2)
op('m_fundamental', 'fundamental', [], [same('quat_fundamental')], ids={'quat': 'q'}, params=kquat.qparams(), ev='quat_fundamental')


def gpnorm(r, ctx):
    st = {}

    def f(*c):
        k = c[:-1]
        if k not in st:
            st[k] = pyth(r.rng, r.p['depth'], zero=False)
        return float(st[k][c[-1]])
    return f


op('m_normalize', 'normalize', [], [FS('q', depth=D, ng=0, init=gpnorm, scale=720720, rnd=True, prescale=1)], ('q', None), vias=('direct', 'level'), params=kquat.qparams(),
   ev='normquat', ghosts=1)
C11 = ['m_qdiffs_symm', 'm_qgrad_cell_symm', 'm_qgrad_side_symm', 'm_qgrad_side_symm_iso', 'm_rotations', 'm_fundamental', 'm_normalize']
