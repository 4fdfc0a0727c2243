"""runs AMPE's python scripts (system python) in a scratch directory; dumps the
netCDF files they write.  usage: ncworker.py jobs.json out.json"""
import sys, os, json, runpy, io, contextlib, traceback
sys.dont_write_bytecode = True
jobs = json.load(open(sys.argv[1]))
res = []
try:
    import numpy as np
    import netCDF4 as nc4
except ImportError:
    json.dump(None, open(sys.argv[2], 'w'))
    sys.exit(0)
for i, j in enumerate(jobs):
    d = j['dir']
    os.makedirs(d, exist_ok=True)
    of = os.path.join(d, 'result.json')
    pid = os.fork()
    if pid == 0:
        r = dict(ok=False, out='', vars={})
        b = io.StringIO()
        try:
            os.chdir(d)
            for n, t in j.get('files', {}).items():
                open(n, 'w').write(t)
            sys.argv = [j['script']] + j['args']
            sys.path.insert(0, os.path.dirname(j['script']))
            with contextlib.redirect_stdout(b):
                try:
                    runpy.run_path(j['script'], run_name='__main__')
                    r['ok'] = True
                except SystemExit as e:
                    r['ok'] = not e.code
            for n in j.get('nc', []):
                f = nc4.Dataset(n)
                r['dims'] = {k: len(v) for k, v in f.dimensions.items()}
                for k, v in f.variables.items():
                    r['vars'][k] = dict(dims=list(v.dimensions), val=np.array(v[:]).astype(float).ravel().tolist())
                f.close()
        except BaseException:
            r['ok'] = False
            r['err'] = traceback.format_exc()[-400:]
        r['out'] = b.getvalue() if j.get('keepout') else ''
        json.dump(r, open(of, 'w'))
        os._exit(0)
    os.waitpid(pid, 0)
    try:
        res.append(json.load(open(of)))
    except Exception:
        res.append(dict(ok=False, out='', vars={}, err='no result'))
json.dump(res, open(sys.argv[2], 'w'))
