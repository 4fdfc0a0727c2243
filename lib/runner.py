"""check <ID>: decides one property.

1. builds the kernels from /repo's working tree,
2. TLC model-checks the property's exhaustive configurations (design level),
3. runs the property's driver against the real kernels, recording a trace,
4. TLC validates the trace against the specification (conformance level),
5. writes evidence/<ID>.json; exit 0, or 1 with a VIOLATION line.
"""
import sys, os, json, time, subprocess, tempfile, shutil, re, importlib, signal
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, 'lib'))
sys.path.insert(0, os.path.join(ROOT, 'drivers'))
import build
from concurrent.futures import ThreadPoolExecutor

SPEC = os.path.join(ROOT, 'spec')
PY = '/opt/veriftools/pyvenv/bin/python3'
if not os.path.exists(PY):
    PY = 'python3-vt'
JAR = '/opt/veriftools/tla/tla2tools.jar'


class CheckError(Exception):
    pass


def tlc(module, cfg, workdir, env=None, timeout=800, workers=1, heap='2g'):
    """returns (output, ok) ; ok = TLC finished without error"""
    e = dict(os.environ)
    e.update(env or {})
    e['JAVA_TOOL_OPTIONS'] = '-Xmx%s -Xss64m -XX:+UseSerialGC -XX:CICompilerCount=2' % heap
    md = tempfile.mkdtemp(prefix='md', dir=workdir)
    cmd = ['java', '-cp', JAR + ':/opt/veriftools/tla/CommunityModules-deps.jar', 'tlc2.TLC', '-metadir', md, '-noGenerateSpecTE', '-workers', str(workers), '-config', cfg, module]
    try:
        p = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                           timeout=timeout)
        out = p.stdout
    except subprocess.TimeoutExpired as x:
        raise CheckError('TLC timeout on %s' % module)
    finally:
        shutil.rmtree(md, ignore_errors=True)
    return out, ('Model checking completed. No error has been found' in out)


def stats(out):
    m = None
    for m in re.finditer(r'([\d,]+) states generated, ([\d,]+) distinct states found', out):
        pass
    if not m:
        return 0, 0
    return int(m.group(1).replace(',', '')), int(m.group(2).replace(',', ''))


def run_mc(spec, workdir, tier):
    """spec: (module, cfg[, thorough_only])"""
    module, cfg = spec[0], spec[1]
    out, ok = tlc(module + '.tla', cfg + '.cfg', workdir, timeout=800, workers=4, heap='6g')
    if not ok:
        raise CheckError('model %s/%s does not satisfy its properties:\n%s' % (module, cfg, clean(out)[-3000:]))
    g, d = stats(out)
    return {'model': module, 'config': cfg, 'generated': g, 'distinct': d}


def event_modules():
    """event kind -> trace module, read off the specification (e.ev = "kind" / e.ev \\in {"kind", ...})"""
    r = {}
    for f in sorted(os.listdir(SPEC)):
        if f.startswith('Trace') and f.endswith('.tla'):
            s = open(os.path.join(SPEC, f)).read()
            ks = re.findall(r'e\.ev = "(\w+)"', s)
            for m in re.findall(r'e\.ev \\in \{([^}]*)\}', s):
                ks += re.findall(r'"(\w+)"', m)
            for k in ks:
                r.setdefault(k, []).append(f[:-4])
    return r


def split_trace(path, n, workdir, default):
    """split at scenario boundaries into about n pieces of equal size; a scenario goes to the module its first event belongs to"""
    mods = event_modules()

    def module(ln):
        c = mods.get(re.search(r'"ev":"(\w+)"', ln).group(1), [default])
        return default if default in c else c[0]
    with open(path) as f:
        lines = f.readlines()
    groups, cur, last = {}, [], None

    def put():
        if cur:
            groups.setdefault(module(cur[0]), []).append(cur)
    for ln in lines:
        sc = json.loads(ln)['sc'] if len(ln) < 200 else int(re.search(r'"sc":(\d+)', ln).group(1))
        if sc != last and cur:
            put(); cur = []
        cur.append(ln); last = sc
    put()
    tot = sum(len(l) for g in groups.values() for c in g for l in c) or 1
    out = []
    for m, gs in sorted(groups.items()):
        sz = sum(len(l) for c in gs for l in c)
        k = max(1, min(int(round(n * sz / tot)), len(gs)))
        # longest processing time first
        bins = [[0, i, []] for i in range(k)]
        for g in sorted(gs, key=lambda g: -sum(map(len, g))):
            b = min(bins, key=lambda b: b[0])
            b[0] += sum(map(len, g)); b[2].append(g)
        for i, (_, _, bg) in enumerate(bins):
            p = os.path.join(workdir, '%s%d.ndjson' % (m, i))
            with open(p, 'w') as f:
                for g in bg:
                    f.writelines(g)
            out.append((m, p, sum(len(g) for g in bg)))
    return out


def clean(out):
    return '\n'.join(l[:240] for l in out.split('\n') if not re.match(r'(Parsing file|Semantic processing|Warning|Picked up|\(Use|TLC2 V|Running br)', l))


def validate(module, part, count, workdir):
    """TLC's verdict on each event.  An event on which the specification cannot be evaluated (values outside the
    domain or range of its operators) is no behaviour of it: it is rejected with the label 'undefined'."""
    undefd = []
    while True:
        out, ok = tlc(module + '.tla', 'Trace.cfg', workdir, env={'TRACE': part}, timeout=850)
        if ok:
            break
        m = None
        for m in re.finditer(r'^(?:/\\ )?l = (\d+)$', out, re.M):
            pass
        if m is None or 'emantic errors' in out or 'Parse Error' in out or len(undefd) >= 8 or 'evaluat' not in out:
            raise CheckError('TLC failed on trace %s of %s:\n%s' % (part, module, clean(out)[-3500:]))
        lines = open(part).readlines()
        i = int(m.group(1)) - 1
        if i >= len(lines):
            raise CheckError('TLC failed on trace %s of %s:\n%s' % (part, module, clean(out)[-3500:]))
        e = json.loads(lines[i])
        undefd.append((e['id'], e['ev'], ['undefined']))
        if os.environ.get('VERIF_DEBUG'):
            print('\n'.join(l[:240] for l in out.split('\n') if re.search('Error|ttempted|verflow|rgument|expected|value|of module', l))[:1200])
        del lines[i]
        count -= 1
        with open(part, 'w') as f:
            f.writelines(lines)
    g, d = stats(out)
    if count and d != count + 1:
        raise CheckError('trace of %s not consumed: %d states for %d events\n%s' % (module, d, count, out[-2000:]))
    rej = []
    txt = out.replace('\n', ' ')
    for m in re.finditer(r'<<\s*"REJECT",\s*<<\s*(\d+),\s*"(\w+)",\s*\{([^}]*)\}\s*>>\s*>>', txt):
        rej.append((int(m.group(1)), m.group(2), re.findall(r'"([^"]*)"', m.group(3))))
    if txt.count('"REJECT"') != len(rej):
        raise CheckError('cannot parse rejections:\n' + out[-3000:])
    return {'events': count, 'states': d, 'rej': rej + undefd}


def drive(pid, libs, seed, tier, workdir, tag=''):
    tr = os.path.join(workdir, 'trace%s.ndjson' % tag)
    info = os.path.join(workdir, 'info%s.json' % tag)
    cmd = [PY, os.path.join(ROOT, 'lib', 'drive.py'), pid, tr, info, str(seed), tier, json.dumps(libs)]
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                           timeout=300 if tier == 'quick' else 3000)
    except subprocess.TimeoutExpired:
        return tr, None, 'timeout', ''
    if p.returncode < 0 or p.returncode in (2 + 128, 134, 139):
        return tr, None, 'crash', p.stdout[-2000:]
    if p.returncode == 77:   # kernel reported a run-time (bounds) error
        return tr, None, 'crash', p.stdout[-2000:]
    if p.returncode != 0:
        raise CheckError('driver %s failed (%d):\n%s' % (pid, p.returncode, p.stdout[-3000:]))
    if not os.path.exists(info):   # Fortran STOP inside a kernel
        return tr, None, 'stop', p.stdout[-2000:]
    return tr, json.load(open(info)), None, ''


def known_findings(pid):
    r = []
    p = os.path.join(ROOT, 'known_findings.txt')
    if os.path.exists(p):
        for ln in open(p):
            ln = ln.strip()
            m = re.match(r'finding: property=(\S+) event=(\S+) label=(\S+) (.*)', ln)
            if m and m.group(1) == pid:
                r.append((m.group(2), m.group(3), m.group(4)))
    return r


def main():
    pid = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--thorough' in sys.argv:
        tier = 'thorough'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    os.makedirs(os.path.join(ROOT, '.scratch'), exist_ok=True)
    os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
    work = tempfile.mkdtemp(prefix=pid, dir=os.path.join(ROOT, '.scratch'))
    mod = importlib.import_module(pid.lower())
    code = 2
    try:
        code = decide(pid, mod, tier, seed, work, t0)
    except (CheckError, build.BuildError) as x:
        print('CHECK-ERROR %s: %s' % (pid, x))
        code = 2
    finally:
        shutil.rmtree(work, ignore_errors=True)
    sys.exit(code)


def fail(pid, seed, tier, why, extra, n):
    d = os.path.join(ROOT, 'replays')
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, '%s-%d.json' % (pid, n))
    with open(path, 'w') as f:
        json.dump({'property': pid, 'seed': seed, 'tier': tier, 'why': why, 'detail': extra,
                   'replay': 'VERIF_SEED=%d VERIF_TIER=%s ./check %s' % (seed, tier, pid)}, f, indent=1)
    print('VIOLATION property=%s replay=%s' % (pid, path))


def decide(pid, mod, tier, seed, work, t0):
    libs = {}
    for d in mod.DIMS:
        libs[str(d)] = build.kernel_lib(d, 'opt')
        if getattr(mod, 'CHK', False):
            libs['%dchk' % d] = build.kernel_lib(d, 'chk')
    if hasattr(mod, 'extra_build'):
        libs.update(mod.extra_build(work))
    if getattr(mod, 'CX', None):
        import cxxbuild
        cx = cxxbuild.cxx_libs(getattr(mod, 'CXDIMS', mod.DIMS), mod.CX, work)
        libs.update({k: p for k, p in cx.items() if p})
    mcs = [m for m in getattr(mod, 'MC', []) if len(m) < 3 or tier == 'thorough' or m[2] != 'thorough']
    ex = ThreadPoolExecutor(10)
    fut_mc = [ex.submit(run_mc, m, work, tier) for m in mcs]

    tr, info, died, msg = drive(pid, libs, seed, tier, work)
    if died:   # confirm
        tr2, info2, died2, msg2 = drive(pid, libs, seed, tier, work, 'b')
        if died2 is None:
            raise CheckError('driver %s once, not again' % died)
        print('driver:', msg[-1500:])
        mc = [f.result() for f in fut_mc]
        evidence(pid, mod, tier, seed, t0, mc, None, 0, [], 1, died)
        fail(pid, seed, tier, 'the code under test did not return (%s)' % died, msg2, 0)
        return 1
    parts = split_trace(tr, 7 if tier == 'quick' else 8, work, mod.MODULE)
    fut = [ex.submit(validate, m, p, c, work) for m, p, c in parts]
    res = [f.result() for f in fut]
    mc = [f.result() for f in fut_mc]
    rej = [r for x in res for r in x['rej']]
    known = known_findings(pid)
    unknown, seen = [], {}
    for r in rej:
        left = [lab for lab in r[2] if not any(k[0] == r[1] and k[1] == lab for k in known)]
        for lab in r[2]:
            for k in known:
                if k[0] == r[1] and k[1] == lab:
                    seen[k] = seen.get(k, 0) + 1
        if left:
            unknown.append((r[0], r[1], left))
    for k in known:
        if k in seen:
            print('KNOWN-FINDING: property=%s %s (event %s, obligation %s)' % (pid, k[2], k[0], k[1]))
    if unknown:
        # confirm on a fresh run of the driver
        tr2, info2, died2, _ = drive(pid, libs, seed, tier, work, 'b')
        ids = set(u[0] for u in unknown)
        ev = {}
        for t in (tr, tr2):
            ev[t] = {}
            if t == tr2 and died2:
                continue
            for ln in open(t):
                i = int(re.search(r'"id":(\d+)', ln).group(1))
                if i in ids:
                    ev[t][i] = ln
        same = [u for u in unknown if ev[tr].get(u[0]) == ev[tr2].get(u[0])]
        if not same:
            raise CheckError('rejected events did not repeat')
        unknown = same
    evidence(pid, mod, tier, seed, t0, mc, info, sum(p[2] for p in parts), res, len(unknown), None, tr)
    if unknown:
        summ = {}
        for u in unknown:
            summ.setdefault((u[1], tuple(u[2])), []).append(u[0])
        for n, ((kind, labs), idl) in enumerate(sorted(summ.items())):
            print('rejected: %s obligations %s, %d events e.g. #%s' % (kind, ','.join(labs), len(idl), idl[0]))
            if os.environ.get('VERIF_DEBUG'):
                open('/tmp/rej%d.json' % n, 'w').write(ev[tr][idl[0]])
        u = unknown[0]
        fail(pid, seed, tier, 'event %s #%d violates %s' % (u[1], u[0], u[2]),
             {'event': json.loads(ev[tr][u[0]]), 'all': [[k[0], list(k[1]), len(v)] for k, v in summ.items()]}, 0)
        return 1
    print('OK property=%s events=%d models=%s wall=%.1fs' % (
        pid, sum(p[2] for p in parts), ','.join('%s:%d' % (m['config'], m['distinct']) for m in mc), time.time() - t0))
    return 0


def evidence(pid, mod, tier, seed, t0, mc, info, nev, res, nviol, died, tr=None):
    samples = []
    if tr:
        with open(tr) as f:
            seen = set()
            for ln in f:
                k = re.search(r'"ev":"(\w+)"', ln).group(1)
                if k not in seen and len(samples) < 3 and len(ln) < 6000:
                    seen.add(k); samples.append(json.loads(ln))
    cov = {'states': sum(m['distinct'] for m in mc) + sum(r['states'] for r in res),
           'transitions': sum(m['generated'] for m in mc) + sum(r['events'] for r in res),
           'traces_validated_against_impl': (info or {}).get('scenarios', 0),
           'events_validated': nev,
           'events_by_kind': (info or {}).get('kinds', {}),
           'kernel_calls': (info or {}).get('calls', 0),
           'models': mc,
           'samples': samples}
    if died:
        cov['note'] = 'driver ended: ' + died
    json.dump({'property': pid, 'tier': tier, 'seed': seed, 'level': 'model_checking', 'coverage': cov,
               'assumptions': getattr(mod, 'ASSUMPTIONS', []), 'wall_s': round(time.time() - t0, 2),
               'violations': nviol},
              open(os.path.join(ROOT, 'evidence', pid + '.json'), 'w'), indent=1)


if __name__ == '__main__':
    main()
