"""mut.py [-s SEED] [-d DIMS] [-n] ID[,ID..] [file old new]...: what the drivers of these properties and TLC say about an edited tree.
A development tool: compiled objects are kept under /tmp/mut, keyed by their contents.  -n: no TLC."""
import sys, os, subprocess, hashlib, glob, shutil, re, json, importlib
W = os.environ.get('MUTW', '/tmp/mut')
WT = W + '/wt'
os.makedirs(W, exist_ok=True)
os.environ['AMPE_REPO'] = WT
os.environ['JAVA_TOOL_OPTIONS'] = '-Xmx6g -Xss64m'
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [ROOT + '/lib', ROOT + '/drivers']
a = sys.argv[1:]
opt = {}
while a[0].startswith('-'):
    if a[0] == '-n':
        opt['-n'] = 1
        a = a[1:]
    else:
        opt[a[0]] = a[1]
        a = a[2:]
if not os.path.exists(WT):
    subprocess.check_call(['git', '-C', '/repo', 'worktree', 'add', '-q', '--detach', WT, 'HEAD'])
subprocess.check_call('git -C %s checkout -q -f --detach $(git -C /repo rev-parse HEAD)' % WT, shell=True)
if '-p' in opt:
    subprocess.check_call(['git', '-C', WT, 'apply', os.path.abspath(opt['-p'])])
if '-R' in opt:      # without this commit
    subprocess.check_call('git -C /repo show %s | git -C %s apply -R' % (opt['-R'], WT), shell=True)
for i in range(1, len(a) - 2, 3):
    f, o, n = a[i:i + 3]
    f = os.path.join(WT, f)
    s = open(f).read()
    assert s.count(o) >= 1, ('not found', o)
    open(f, 'w').write(s.replace(o, n, 1) if s.count(o) == 1 or '-1' in opt else s.replace(o, n))
import cxxbuild, build, amk


def hh(*fs):
    h = hashlib.sha1()
    for f in fs:
        h.update(open(f, 'rb').read())
    return h.hexdigest()[:16]


heads = sorted(glob.glob(ROOT + '/lib/cxxbuild.py') + [WT + '/source/ArrayOperation.cc'] + glob.glob(WT + '/source/*.h') + glob.glob(WT + '/source/*/*.h') + glob.glob(ROOT + '/shim/mini/*') + glob.glob(ROOT + '/shim/ext/*.h') + glob.glob(ROOT + '/shim/ext/*/*.h') + glob.glob(ROOT + '/shim/harness/*.h'))
HH = hh(*heads)
orig = cxxbuild.Tree.obj
CACHE = W + '/obj'
os.makedirs(CACHE, exist_ok=True)


def obj(self, name, path, quiet=False):
    k = os.path.join(CACHE, '%d-%s-%s-%s.o' % (self.dim, name, HH, hh(path)))
    if not os.path.exists(k):
        r = orig(self, name, path, quiet)
        if r is None:
            return None
        shutil.copy(r, k + '.t')
        os.rename(k + '.t', k)
    with self.lock:
        self.objs[name] = k
    return k


cxxbuild.Tree.obj = obj
out = W + '/lib'
os.makedirs(out, exist_ok=True)
for pid in a[0].split(','):
    mod = importlib.import_module(pid.lower())
    dims = tuple(int(x) for x in opt['-d']) if '-d' in opt else None
    libs = {}
    for d in mod.DIMS:
        if not dims or d in dims:
            libs[d] = amk.Lib(build.kernel_lib(d, 'opt'), d)
    cd = getattr(mod, 'CXDIMS', mod.DIMS)
    cx = cxxbuild.cxx_libs([d for d in cd if not dims or d in dims], getattr(mod, 'CX', []), out)
    libs.update({k: p for k, p in cx.items() if p})
    t = amk.Trace(W + '/t.tr')
    ctx = amk.Ctx(t, libs, int(opt.get('-s', 1)), 'quick')
    try:
        mod.drive(ctx)
    except SystemExit as x:
        print('exit', x)
    t.close()
    print(pid, 'events', t.n)
    cxxbuild.cleanup(cx)
    if '-n' in opt:
        continue
    seen = {}
    kinds = {}
    import runner
    for m, p, k in runner.split_trace(W + '/t.tr', 1, W, mod.MODULE):
        r = subprocess.run('cd %s/spec && TRACE=%s timeout 800 tlc -noGenerateSpecTE -workers 1 -metadir %s/meta -config Trace.cfg %s' % (ROOT, p, W, m), shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True).stdout
        if 'No error has been found' not in r:
            seen['evaluation', re.findall(r'Attempted[^\n]*|verflow|Error.*', r)[0][:150]] = 1
        for x in re.findall(r'<<\s*"REJECT",\s*<<\s*(\d+),\s*"(\w+)",\s*(\{[^}]*\})\s*>>\s*>>', r.replace('\n', ' ')):
            seen[x[1:]] = seen.get(x[1:], 0) + 1
    for k, v in sorted(seen.items(), key=lambda x: -x[1])[:8]:
        print('   %4d %s %s' % (v, k[0], k[1][:200]))
    if not seen:
        print('   quiet')
