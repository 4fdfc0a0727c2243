"""subprocess that runs one property's driver: drive.py PID trace info seed tier libs"""
import sys, os, json, importlib
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, 'lib'))
sys.path.insert(0, os.path.join(ROOT, 'drivers'))
import amk
pid, tr, info, seed, tier, libs = sys.argv[1:7]
libs = json.loads(libs)
mod = importlib.import_module(pid.lower())
L = {}
for k, p in libs.items():
    if k[0] in '123' :
        L[k] = amk.Lib(p, int(k[0]))
    else:
        L[k] = p
L2 = {int(k) if k.isdigit() else k: v for k, v in L.items()}
t = amk.Trace(tr)
ctx = amk.Ctx(t, L2, int(seed), tier)
mod.drive(ctx)
t.close()
json.dump({'scenarios': t.sc, 'kinds': t.kinds, 'events': t.n,
           'calls': sum(l.calls for l in L.values() if isinstance(l, amk.Lib))}, open(info, 'w'))
