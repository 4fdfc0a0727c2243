"""Builds AMPE's kernels from /repo's *current working tree* into shared libraries.

Everything goes to /verif/.build/<hash of the inputs>/ (git-ignored); /repo is
only read.  variants: 'opt' (as the project: -O3) and 'chk' (bounds checking).
"""
import hashlib, os, subprocess, sys, glob, shutil, tempfile
from concurrent.futures import ThreadPoolExecutor

REPO = os.environ.get('AMPE_REPO', '/repo')
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUILD = os.path.join(ROOT, '.build')
FF = {'opt': ['-O3', '-fPIC', '-ffp-contract=off'],
      'chk': ['-O1', '-g', '-fPIC', '-ffp-contract=off', '-fcheck=bounds']}
CXXSRC = ['TiltingFolchPlapp2005.cc', 'TiltingMoelans2011.cc',
          'computeWeights3Pairs.cc', 'ArrayOperation.cc']


class BuildError(Exception):
    pass


def run(cmd, **kw):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    if p.returncode != 0:
        raise BuildError('%s\n%s' % (' '.join(cmd), p.stdout[-3000:]))
    return p.stdout


def tree_hash(paths, extra=''):
    h = hashlib.sha256(extra.encode())
    for p in sorted(paths):
        h.update(p.encode())
        with open(p, 'rb') as f:
            h.update(f.read())
    return h.hexdigest()[:16]


def kernel_lib(dim, variant='opt'):
    src = os.path.join(REPO, 'source')
    fdir = os.path.join(src, 'fortran')
    shim = os.path.join(ROOT, 'lib', 'cshim.cc')
    common = sorted(glob.glob(os.path.join(fdir, '*.f')))
    m4s = sorted(glob.glob(os.path.join(fdir, '%dd' % dim, '*.m4')))
    incs = sorted(glob.glob(os.path.join(fdir, '*.i')) + glob.glob(os.path.join(fdir, '*.h')))
    cxx = [os.path.join(src, c) for c in CXXSRC]
    hdrs = glob.glob(os.path.join(src, '*.h'))
    h = tree_hash(common + m4s + incs + cxx + hdrs + [shim], repr((dim, FF[variant], 3)))
    out = os.path.join(BUILD, 'lib%dd-%s-%s.so' % (dim, variant, h))
    if os.path.exists(out):
        return out
    os.makedirs(BUILD, exist_ok=True)
    tmp = tempfile.mkdtemp(prefix='b', dir=BUILD)
    try:
        objs, jobs = [], []
        for m in m4s:
            b = os.path.basename(m)[:-3]
            f = os.path.join(tmp, b + '.f')
            with open(f, 'w') as o:
                p = subprocess.run(['m4', '-DSAMRAI_FORTDIR=' + fdir, m], stdout=o, stderr=subprocess.PIPE, text=True)
            if p.returncode:
                raise BuildError('m4 %s: %s' % (m, p.stderr))
            jobs.append(['gfortran'] + FF[variant] + ['-I', fdir, '-c', f, '-o', f + '.o'])
            objs.append(f + '.o')
        for f in common:
            o = os.path.join(tmp, 'c_' + os.path.basename(f) + '.o')
            jobs.append(['gfortran'] + FF[variant] + ['-I', fdir, '-c', f, '-o', o])
            objs.append(o)
        for c in cxx + [shim]:
            o = os.path.join(tmp, os.path.basename(c) + '.o')
            jobs.append(['g++', '-O2', '-fPIC', '-ffp-contract=off', '-std=c++11', '-DNDIM=%d' % dim,
                         '-DMAX_POL_T_INDEX=2', '-I', src, '-I', fdir, '-c', c, '-o', o])
            objs.append(o)
        with ThreadPoolExecutor(8) as ex:
            list(ex.map(run, jobs))
        run(['g++', '-shared', '-o', os.path.join(tmp, 'l.so')] + objs + ['-lgfortran', '-lm'])
        os.replace(os.path.join(tmp, 'l.so'), out)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    return out


if __name__ == '__main__':
    for d in (2, 3):
        for v in FF:
            print(kernel_lib(d, v))
