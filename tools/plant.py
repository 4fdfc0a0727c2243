"""plant.py ID [check...]: (re)generate seeded/ID from tools/demo/bugs*.py, confirm the demo both ways, run the checks on it.
Works in a scratch worktree under /tmp, removed afterwards."""
import sys, os, subprocess, json, shutil, glob, tempfile, importlib.util
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUGS = {}


def bug(bid, prop, edits, needs, breaks, demo):
    BUGS[bid] = (prop, edits, needs, breaks, demo)


def main():
    for f in sorted(glob.glob(os.path.join(ROOT, 'tools/demo/bugs*.py'))):
        exec(compile(open(f).read(), f, 'exec'), {'bug': bug})
    ids = [a for a in sys.argv[1:] if a in BUGS] or ([] if len(sys.argv) > 1 else list(BUGS))
    if sys.argv[1:] == ['new']:
        ids = [b for b in BUGS if not os.path.exists(os.path.join(ROOT, 'seeded', b, 'meta.json'))]
    for b in ids:
        prop, edits, needs, breaks, demo = BUGS[b]
        wt = tempfile.mkdtemp(prefix='wt', dir='/tmp')
        shutil.rmtree(wt)
        subprocess.check_call(['git', '-C', '/repo', 'worktree', 'add', '-q', '--detach', wt, 'HEAD'])
        try:
            d = os.path.join(ROOT, 'seeded', b)
            os.makedirs(d, exist_ok=True)
            for e in edits:
                fn, old, new = e[:3]
                nth = e[3] if len(e) > 3 else 0
                p = os.path.join(wt, fn)
                s = open(p).read()
                parts = s.split(old)
                assert len(parts) > nth + 1, (b, 'not found', fn, old)
                if len(e) < 4:
                    assert len(parts) == 2, (b, 'ambiguous', fn, old, len(parts) - 1)
                s = old.join(parts[:nth + 1]) + new + old.join(parts[nth + 1:])
                open(p, 'w').write(s)
            open(os.path.join(d, 'patch.diff'), 'w').write(subprocess.check_output(['git', '-C', wt, 'diff'], text=True))
            shutil.copy(os.path.join(ROOT, 'tools/demo/kt.py'), d)
            if 'import mini' in demo:
                os.remove(os.path.join(d, 'kt.py'))
                shutil.copy(os.path.join(ROOT, 'tools/demo/mini.py'), d)
                for x in ('mini', 'ext'):
                    shutil.copytree(os.path.join(ROOT, 'shim', x), os.path.join(d, x), dirs_exist_ok=True)
            open(os.path.join(d, 'demo.py'), 'w').write(demo.lstrip('\n'))
            open(os.path.join(d, 'demo.sh'), 'w').write('#!/bin/bash\nexport PYTHONDONTWRITEBYTECODE=1\nexec python3 "$(cd "$(dirname "$0")" && pwd)/demo.py"\n')
            os.chmod(os.path.join(d, 'demo.sh'), 0o755)
            json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(os.path.join(d, 'meta.json'), 'w'), indent=1)
            r0 = subprocess.run([d + '/demo.sh'], cwd='/repo', stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            r1 = subprocess.run([d + '/demo.sh'], cwd=wt, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            r2 = subprocess.run([ROOT + '/check', prop], env=dict(os.environ, AMPE_REPO=wt), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            v = [l for l in r2.stdout.split('\n') if l.startswith('VIOLATION')]
            print(b, 'demo clean', r0.returncode, 'demo bug', r1.returncode, 'check', r2.returncode, v[:1], flush=True)
            if r0.returncode or not r1.returncode:
                print(r0.stdout[-600:], r1.stdout[-600:])
        finally:
            subprocess.call(['git', '-C', '/repo', 'worktree', 'remove', '--force', wt])


main()
