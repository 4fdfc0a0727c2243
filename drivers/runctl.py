"""scenarios for the run control of PFModel: whole runs, and chains of restarts"""
from amk import enc
from cx import World, lib, CxError

NAMES = {1: 'pre', 2: 'visit', 3: 'line', 4: 'restart', 5: 'grains', 6: 'step', 7: 'post', 8: 'regrid', 9: 'end', 10: 'free', 11: 'initial file'}
DEF = {'v': (0, 'step', True, True), 'ti': (8, 'step', False, True), 'r': (0, 'step', False, True), 'g': (0, 'step', False, True), 'rg': (40, 'step', False, True)}
KEY = {'v': 'Visit', 'ti': 'TimestepOutput', 'r': 'Restart', 'g': 'GrainDiagnostics', 'rg': 'Regrid'}


def schedule(r, n, tend):
    d8, ty, f, g = DEF[n]
    c = {'has': r.random() < .75, 'type': r.choice(['', '', 'step', 'time', 'dt', 'cycle']), 'given': r.random() < .85, 'interval': 0,
         'first': r.choice([-1, -1, 0, 1]), 'final': r.choice([-1, -1, 0, 1]), 'd8': d8, 'dtype': ty, 'dfirst': f, 'dfinal': g}
    if r.random() < .01:
        c['type'] = r.choice(['never', 'Step', 'times'])
    if c['given']:
        c['interval'] = r.choice([0, 1, 2, 3, 4, 7]) if (c['type'] or ty) in ('step', 'cycle') else r.choice([0, 1, 2, 4, 6, 8, 16, 5])
    d = {}
    if c['type']:
        d['interval_type'] = c['type']
    if c['given']:
        d['interval'] = c['interval'] if (c['type'] or ty) in ('step', 'cycle') else c['interval'] / 8.
    if c['first'] >= 0:
        d['include_first_step'] = bool(c['first'])
    if c['final'] >= 0:
        d['include_last_step'] = bool(c['final'])
    return c, d


def one(ctx, w, r, restart=None):
    """one run; returns the files it wrote"""
    dim = w.dim
    db, iv = {}, {}
    amr_has = r.random() < .6
    amr = amr_has and r.choice([None, True, False])
    amr_on = amr_has and amr is not False
    if restart:
        amr_on = restart['amr']
    inp = {'delta': -1, 'max': -1, 'maxts': -1, 'start': -1, 'end': r.choice([-1, 8, 16, 24]) if restart else r.choice([4, 8, 16, 40]), 'amr': amr_has and amr is not False}
    if r.random() < .6:
        inp['max'] = db['max_cycles'] = r.choice([0, 1, 3, 6, 10, 14])
    if r.random() < .4:
        inp['maxts'] = db['max_timesteps'] = r.choice([0, 2, 5, 9, 12])
    if r.random() < .4:
        inp['delta'] = db['max_delta_cycles'] = r.choice([1, 2, 4, 7])
    if r.random() < .4:
        inp['start'] = r.choice([0, 1, 4, 16])
        db['start_time'] = inp['start'] / 8.
    if inp['end'] >= 0:
        db['end_time'] = inp['end'] / 8.
    for n in KEY:
        c, d = schedule(r, n, inp['end'])
        if n == 'rg':
            if not amr_on:
                c = dict(c, has=False, d8=0)
            elif c['has']:
                db.setdefault('Amr', {})['Regrid'] = d
        elif c['has']:
            db[KEY[n]] = d
        iv[n] = c
    if not iv['v']['has']:
        pass
    given = {'visit': '', 'rdir': '', 'nproc': -1, 'icfile': '', 'verb': {'has': False, 'silent': False, 'level': -1, 'amr': -1}}
    if iv['v']['has'] and r.random() < .5:
        given['visit'] = db['Visit']['dirname'] = r.choice(['plots', 'v', 'out.v'])
    if iv['v']['has'] and r.random() < .3:
        given['nproc'] = db['Visit']['number_procs_per_file'] = r.choice([1, 2, 8])
    if iv['r']['has'] and r.random() < .5:
        given['rdir'] = db['Restart']['dirname'] = r.choice(['save', 'r', 'x.r'])
    if r.random() < .6:
        v = given['verb']
        v['has'] = True
        d = db['Verbosity'] = {}
        if r.random() < .3:
            v['silent'] = d['silent'] = r.random() < .5
        if r.random() < .6:
            v['level'] = d['level'] = r.choice([0, 1, 1, 2])
        if r.random() < .6:
            v['amr'] = d['amr_level'] = r.choice([0, 1, 2])
    wic = -1
    if r.random() < .4:
        wic = 0
        given['icfile'] = r.choice(['end.nc', 'a/b.nc'])
        e = {'filename': given['icfile']}
        if r.random() < .5:
            wic = e['amr_level_of_data'] = r.choice([0, 1, 2])
        db['InitialConditions'] = {'WriteEndingFile': e}
    elif r.random() < .3:
        db['InitialConditions'] = {'filename': 'start.nc'}
    lv = 1
    if r.random() < .7:
        lv = r.choice([1, 2, 3])
        db['PatchHierarchy'] = {'max_levels': lv}
    if amr_on or amr_has:
        a = db.setdefault('Amr', {})
        a['GriddingAlgorithm'] = {}
        if amr is not None and amr_has:
            a['enabled'] = bool(amr)
        elif not amr_has:
            a['enabled'] = r.random() < .5
            inp['amr'] = a['enabled']
        if r.random() < .3:
            a['StandardTagAndInitialize'] = {'tagging_method': 'GRADIENT_DETECTOR'}
    n = [r.choice([2, 4, 8, 16]) for _ in range(dim)]
    per = [1] * dim
    x = [[r.choice([0, 0, -4, 1]), 0] for _ in range(dim)]
    for k in range(dim):
        x[k][1] = x[k][0] + r.choice([1, 2, 4, 8])
    geo = db['Geometry'] = {'coarsest_level_resolution': n, 'x_lo': [float(a) for a, _ in x], 'x_up': [float(b) for _, b in x]}
    if r.random() < .6:
        per = [r.choice([0, 1]) for _ in range(dim)]
        geo['periodic_dimension'] = per
    run = r.choice(['run', 'a', '2d.b'])
    dts = [r.choice([1, 1, 2, 3, 8]) for _ in range(r.randint(1, 5))]
    kw = {'db': json_(db), 'run': run, 'restart': bool(restart), 'dts': [d / 8. for d in dts], 'clear': 0}
    if restart:
        kw['from'] = restart['dir']
        kw['num'] = restart['num']
    ok = True
    try:
        w.call('run', **kw)
    except CxError as x_:
        ERR.append(str(x_))
        if str(x_).startswith('missing'):
            return []
        ok = False
    log = w.res('log') or []
    blocks = [[]]
    for i in range(0, len(log), 5):
        op, k, t, a, b = log[i:i + 5]
        if op == 6:
            blocks.append([['step', int(k), enc(t, 8), enc(a, 8), enc(b, 8)]])
            continue
        if op == 9:
            blocks.append([])
        if int(op) in NAMES:
            blocks[-1].append([NAMES[int(op)], int(k), enc(t, 8), int(a) if op == 11 else enc(a, 8) if op == 3 else 0])
    st = w.res('state') or []
    cf = w.res('cfg') or []
    num = lambda v: [int(v[0]), enc(v[1], 8), enc(v[2], 8), int(v[3]), enc(v[4], 8), enc(v[5], 8), int(v[6])]
    old = len(one.files)
    fs = w.res('files') or []
    dirs = (w.text('dirs') or '').split('\n')[:-1]
    files = [{'num': int(fs[i]), 'max': int(fs[i + 1]), 'start': enc(fs[i + 2], 8), 'end': enc(fs[i + 3], 8), 't': enc(fs[i + 4], 8), 'k': int(fs[i + 5]),
              'dt': enc(fs[i + 6], 8), 'amr': bool(fs[i + 7])} for i in range(0, len(fs), 8)] if ok else []
    new = files[old:]
    dom, xs = w.res('dom') or [], w.res('xs') or []
    e = dict(c=0, iv=iv, restart=bool(restart), **{'in': inp}, lim={'amr': amr_on}, dts=dts, lv=lv, given=given, run=run, wic=wic, ok=ok, n=n, per=per, x=x)
    e['from'] = {k: restart[k] for k in ('max', 'start', 'end', 't', 'k', 'dt', 'amr')} if restart else 0
    if ok:
        e.update(blocks=blocks, cfg=num(cf), state=num(st), files=new, dirs=dirs[old:], names={'visit': w.text('visit'), 'nproc': int(cf[10]), 'rdir': w.text('rdir')},
                 written=w.text('written'), level=[int(cf[7]), int(cf[8])], levels=int(cf[9]), allper=bool(cf[14]),
                 dom=[[int(v) for v in dom[4 * k:4 * k + 4]] for k in range(dim)], xs=[[enc(xs[3 * k], 1), enc(xs[3 * k + 1], 1), xs[3 * k + 2]] for k in range(dim)])
        for k in range(dim):      # spacing in units of 1/n
            e['xs'][k][2] = enc(e['xs'][k][2] * n[k], 1)
    ctx.t.ev('run', **e)
    for f, d in zip(new, dirs[old:]):
        f = dict(f, dir=d)
        one.files.append(f)
    return one.files[old:] if ok else []


one.files = []
ERR = []      # messages of the runs that stopped


def json_(d):
    import json
    return json.dumps(d)


def runs(ctx, n):
    r = ctx.rng
    for _ in range(n):
        dim = r.choice([2, 2, 3])
        l = lib(ctx, 'runctl', dim)
        if l is None:
            continue
        w = World(l, dim)
        ctx.t.scenario()
        one.files = []
        try:
            w.call('forget')
        except CxError:
            pass
        fs = one(ctx, w, r)
        for _ in range(r.randint(0, 3)):
            last = {}
            for f in one.files:
                last[(f['dir'], f['num'])] = f
            if not last:
                break
            one(ctx, w, r, r.choice(sorted(last.values(), key=lambda f: (f['dir'], f['num']))))
