"""Compiles AMPE's C++ classes from /repo's working tree against the mini-SAMRAI stand-in, with a harness, into one
shared library per (dimension, harness).  The set of AMPE sources is found by following undefined symbols.

A harness that cannot be built from the current tree (for instance because an interface it uses was changed) is
reported and left out: its scenarios are skipped, never counted as violations."""
import glob, os, re, subprocess, shutil, sys, tempfile, threading
from concurrent.futures import ThreadPoolExecutor
import build
from build import REPO, ROOT, BUILD, BuildError, run, tree_hash

SH = os.path.join(ROOT, 'shim')
SRC = os.path.join(REPO, 'source')
MPI = '/usr/lib/x86_64-linux-gnu/openmpi/include'
SKIP = {'ApplyPolynomial', 'SpinodalCompositionRHSStrategy', 'main', 'AMPE'}
EXT = {'cvode/cvode.h', 'cvode/cvode_spils.h', 'sunlinsol/sunlinsol_spgmr.h', 'sundials/sundials_nvector.h'}
TH = 'InterpolationType CALPHAD KKSFree Quadratic PhysicalConstants Phases xlogx functions Thermo'.split()
INKERNEL = {'TiltingFolchPlapp2005', 'TiltingMoelans2011', 'computeWeights3Pairs', 'ArrayOperation'}
OPT = '-O0'
WHOLE = {'sys'}      # harnesses linking the whole program: everything is compiled up front
# harnesses that use one operation of a large class at a time: only these sources, calling anything else is "missing"
ONLY = {'qops': '''QuatModel PFModel QuatModelParameters SimpleQuatGradStrategy SimpleQuatMobilityStrategy
QuatGradModulusStrategy QuatFaceCoeff DerivDiffusionCoeffForQuat HierarchyStencilOps computeQDiffs EventInterval QuatVerbosity
tools toolsSAMRAI'''.split(),
        'kim': '''KimMobilityStrategy KimMobilityStrategyFiniteMob KimMobilityStrategyFiniteMobAntiTrap KimMobilityStrategyInfMob KimMobilityStrategyInfMob3Phases
KKStools computeWeights3Pairs ThreeArgsInterpolationType QuatModelParameters SimpleQuatMobilityStrategy QuatMobilityStrategy Database2JSON tools toolsSAMRAI'''.split()}


def srcs():
    r = {}
    for f in glob.glob(SRC + '/*.cc') + glob.glob(SRC + '/samrai/*.cc'):
        b = os.path.basename(f)[:-3]
        if b not in SKIP:
            r[b] = f
    return r


def forwarders(out):
    inc = set()
    files = glob.glob(SRC + '/*.cc') + glob.glob(SRC + '/*.h') + glob.glob(SRC + '/samrai/*.[ch]*')
    for f in files:
        with open(f, errors='replace') as h:
            inc |= set(re.findall(r'#\s*include\s*[<"]([^>"]+)[>"]', h.read()))
    have = set(os.path.basename(x) for x in glob.glob(SRC + '/*.h') + glob.glob(SRC + '/samrai/*.h') + glob.glob(SRC + '/fortran/*.h'))
    for i in inc:
        t = None
        if i.startswith('SAMRAI/'):
            t = 'mini_all.h'
        elif i in EXT:
            t = 'sundials_stub.h'
        elif os.path.basename(i) not in have and any(i.startswith(p) for p in TH):
            t = 'thermo.h'
        if t:
            p = os.path.join(out, i)
            os.makedirs(os.path.dirname(p), exist_ok=True)
            with open(p, 'w') as h:
                h.write('#include "%s"\n' % t)
    # name mangling headers the project's build generates
    mang = {}
    for f in glob.glob(os.path.join(SRC, '*.h')) + glob.glob(os.path.join(SRC, '*.cc')) + glob.glob(os.path.join(SRC, 'fortran', '*.h')) + glob.glob(SRC + '/samrai/*'):
        with open(f, errors='replace') as h:
            for m in re.findall(r'#\s*include\s*[<"]([^>"]*mangle[^>"]*)[>"]', h.read()):
                mang[m] = 1
    names = set()
    for m in glob.glob(os.path.join(SRC, 'fortran', '*.f')) + glob.glob(os.path.join(SRC, 'fortran', '*d', '*.m4')):
        with open(m, errors='replace') as h:
            for n in re.findall(r'(?im)^\s+(?:[a-z\d_ *]*\bfunction|subroutine)\s+([a-z]\w*)', h.read()):
                names.add(n.lower())
    # SAMRAI's own, provided by shim/harness/samrai_f.cc
    names |= {a + d for a in ('adjustrhs', 'compdiagvariablec', 'compdiagscalarc', 'compdiagzeroc') for d in ('2d', '3d')}
    # C++ side: EXTERN names in upper case used as macros; every kernel NAME -> name_
    for mm in mang:
        with open(os.path.join(out, os.path.basename(mm)), 'w') as h:
            h.write('#ifndef VERIF_MANGLE\n#define VERIF_MANGLE\n')
            for n in sorted(names):
                h.write('#define %s %s_\n' % (n.upper(), n))
            h.write('#endif\n')
    return sorted(mang)


class Tree:
    """one build directory per dimension, shared by the harnesses built in this process"""
    def __init__(self, dim):
        self.dim = dim
        os.makedirs(BUILD, exist_ok=True)
        self.dir = tempfile.mkdtemp(prefix='x%d' % dim, dir=BUILD)
        self.inc = os.path.join(self.dir, 'inc')
        os.makedirs(self.inc)
        self.mangle = forwarders(self.inc)
        self.fl = ['-std=c++17', '-w', OPT, '-fPIC', '-ffp-contract=off', '-fno-gnu-unique', '-DNDEBUG', '-DOMPI_SKIP_MPICXX', '-DHAVE_NETCDF4', '-DNDIM=%d' % dim,
                   '-DMAX_POL_T_INDEX=2', '-I' + self.inc, '-I' + os.path.join(SH, 'mini'), '-I' + os.path.join(SH, 'ext'), '-I' + os.path.join(SH, 'harness'),
                   '-I' + SRC, '-I' + SRC + '/samrai', '-I' + SRC + '/fortran', '-I' + MPI, '-I/usr/include/hypre']
        self.objs = {}
        self.lock = threading.Lock()
        pre = os.path.join(self.dir, 'pre.h')
        with open(pre, 'w') as h:
            h.write('#include "mini_all.h"\n#include "thermo.h"\n')
        run(['g++'] + self.fl + ['-x', 'c++-header', pre, '-o', pre + '.gch'])
        self.pre = ['-include', pre]

    def obj(self, name, path, quiet=False):
        """object file, or None when it does not compile"""
        with self.lock:
            if self.objs.get(name):
                return self.objs[name]
        o = os.path.join(self.dir, name + '.o')
        p = subprocess.run(['g++'] + self.fl + self.pre + ['-c', path, '-o', o], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        r = o if p.returncode == 0 else None
        if r is None and not quiet:
            m = re.search(r'.*error.*', p.stdout)
            print('NOTICE: %s does not compile against the stand-in: %s' % (name, (m.group(0) if m else p.stdout)[:300]))
        with self.lock:
            self.objs[name] = r
        return r

    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)


def undefined(objs):
    und, dfn = set(), set()
    for o in objs:
        p = subprocess.run(['nm', '-C', o], stdout=subprocess.PIPE, text=True)
        for ln in p.stdout.split('\n'):
            m = re.match(r'^[0-9a-f]*\s+(\S)\s+(.*)$', ln)
            if m:
                (und if m.group(1) == 'U' else dfn).add(m.group(2))
    return und - dfn


def candidates(sym, table, cache):
    ids = re.findall(r'[A-Za-z_]\w*', sym.split('(')[0])
    r = [i for i in ids if i in table]
    for i in re.findall(r'\b([A-Za-z_]\w*)::[A-Za-z_~]', sym.split('(')[0]):
        if i in table:
            r.append(i)
    if r:
        return set(r)
    fn = re.sub(r'<.*', '', sym.split('(')[0]).split('::')[-1].strip()
    if not fn or '(' not in sym and '::' not in sym:
        return set()
    if fn in cache:
        return cache[fn]
    out = set()
    if re.match(r'^[A-Za-z_]\w+$', fn):
        for b, f in table.items():
            with open(f, errors='replace') as h:
                if re.search(r'^[A-Za-z][\w:<>,&* ]*\b%s\s*\([^;{}()]*\)\s*(const)?\s*\{' % fn, h.read(), re.M):
                    out.add(b)
    cache[fn] = out
    return out


def cxx_lib(tree, harness, kernlib, outdir, extra=()):
    """path of the library or None (with a NOTICE)"""
    table = {k: v for k, v in srcs().items() if k not in INKERNEL and k in ONLY.get(harness, [k])}
    H = os.path.join(SH, 'harness')
    todo = [('h_core', os.path.join(H, 'core.cc')), ('h_samrai_f', os.path.join(H, 'samrai_f.cc')), ('h_' + harness, os.path.join(H, harness + '.cc'))]
    todo += [(e, table[e]) for e in extra if e in table]
    objs, done, cache, failed = [], set(), {}, []
    with ThreadPoolExecutor(8) as ex:
        if harness in WHOLE:
            big = ['QuatModel', 'QuatIntegrator', 'EllipticFACOps', 'QuatFACOps']
            list(ex.map(lambda x: tree.obj(*x, quiet=True), todo + sorted(table.items(), key=lambda x: x[0] not in big)))
        while todo:
            for n, o in zip(todo, ex.map(lambda x: tree.obj(*x), todo)):
                done.add(n[0])
                if o:
                    objs.append(o)
                else:
                    failed.append(n[0])
            nxt = set()
            for s in undefined(objs):
                c = candidates(s, table, cache)
                if os.environ.get('VERIF_DEBUG') and c - done:
                    print('   %s <- %s' % (' '.join(c - done), s[:150]))
                nxt |= c
            todo = [(n, table[n]) for n in sorted(nxt) if n not in done]
    if failed:
        print('NOTICE: harness %s left out (dim %d): %s did not compile' % (harness, tree.dim, ', '.join(failed)))
        return None
    out = os.path.join(outdir, 'cx-%s-%dd-%d.so' % (harness, tree.dim, os.getpid()))
    try:
        cmd = ['g++', '-shared', '-Wl,-Bsymbolic', '-Wl,--no-undefined', '-Wl,--no-demangle', '-Wl,--error-limit=0', '-o', out] + objs
        tail = [kernlib, '-Wl,-rpath,' + os.path.dirname(kernlib), '-lnetcdf_c++4', '-lnetcdf', '-lHYPRE', '-lmpi', '-lgfortran', '-lm']
        p = subprocess.run([x for x in cmd if 'error-limit' not in x] + tail, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode:
            # what the stand-in leaves out: calling it is reported as "missing", never judged
            miss = sorted(set(re.findall(r"undefined reference to `([^']+)'", p.stdout)))
            if not miss:
                raise BuildError(p.stdout[-600:])
            if os.environ.get('VERIF_DEBUG'):
                print('   left out: ' + ' '.join(miss)[:2000])
            asm = os.path.join(tree.dir, 'missing-%s.s' % harness)
            with open(asm, 'w') as h:
                for m in miss:
                    if re.match(r'_ZT[VIS]', m):
                        h.write('.data\n.globl %s\n.balign 16\n%s: .zero 4096\n' % (m, m))
                    else:
                        h.write('.text\n.globl %s\n%s: jmp am_missing@PLT\n' % (m, m))
                h.write('.section .note.GNU-stack,"",@progbits\n')
            run([x for x in cmd if 'error-limit' not in x] + [asm] + tail)
        p = subprocess.run([sys.executable, '-c', 'import ctypes,os,sys; ctypes.CDLL(sys.argv[1])', out], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode:
            raise BuildError(p.stdout[-600:])
    except BuildError as x:
        print('NOTICE: harness %s left out (dim %d): %s' % (harness, tree.dim, str(x)[-600:]))
        return None
    if os.environ.get('VERIF_DEBUG'):
        print('harness %s dim %d: %s' % (harness, tree.dim, ' '.join(sorted(d for d in done))))
    return out


def cxx_libs(dims, harnesses, outdir=None):
    """{'<harness>:<dim>': path}; libraries are private to this process: remove with cleanup()"""
    r = {}

    def one(dim):
        t = Tree(dim)
        try:
            k = build.kernel_lib(dim, 'opt')
            return {'%s:%d' % (h, dim): cxx_lib(t, h, k, outdir or BUILD) for h in harnesses}
        finally:
            t.close()
    with ThreadPoolExecutor(2) as ex:
        for x in ex.map(one, dims):
            r.update(x)
    return r


def cleanup(libs):
    for p in libs.values():
        if p and os.path.exists(p):
            os.remove(p)
