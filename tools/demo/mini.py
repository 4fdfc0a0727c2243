"""compiles AMPE C++ sources (from the current directory's tree) against small stand-in headers for the libraries"""
import glob, os, re, subprocess, tempfile, shutil
HERE = os.path.dirname(os.path.abspath(__file__))
EXT = {'cvode/cvode.h', 'cvode/cvode_spils.h', 'sunlinsol/sunlinsol_spgmr.h', 'sundials/sundials_nvector.h'}
TH = 'InterpolationType CALPHAD KKSFree Quadratic PhysicalConstants Phases xlogx functions Thermo'.split()


def forwarders(out, src):
    inc = set()
    for f in glob.glob(src + '/*.cc') + glob.glob(src + '/*.h') + glob.glob(src + '/samrai/*.[ch]*'):
        inc |= set(re.findall(r'#\s*include\s*[<"]([^>"]+)[>"]', open(f, errors='replace').read()))
    have = set(os.path.basename(x) for x in glob.glob(src + '/*.h') + glob.glob(src + '/samrai/*.h') + glob.glob(src + '/fortran/*.h'))
    for i in inc:
        t = 'mini_all.h' if i.startswith('SAMRAI/') else 'sundials_stub.h' if i in EXT else None
        if not t and os.path.basename(i) not in have and any(i.startswith(p) for p in TH):
            t = 'thermo.h'
        if t:
            p = os.path.join(out, i)
            os.makedirs(os.path.dirname(p), exist_ok=True)
            open(p, 'w').write('#include "%s"\n' % t)
    names = set()
    for m in glob.glob(src + '/fortran/*.f') + glob.glob(src + '/fortran/*d/*.m4'):
        names |= set(n.lower() for n in re.findall(r'(?im)^\s+(?:[a-z\d_ *]*\bfunction|subroutine)\s+([a-z]\w*)', open(m, errors='replace').read()))
    mang = set()
    for f in glob.glob(src + '/*.h') + glob.glob(src + '/*.cc') + glob.glob(src + '/fortran/*.h') + glob.glob(src + '/samrai/*'):
        mang |= set(re.findall(r'#\s*include\s*[<"]([^>"]*mangle[^>"]*)[>"]', open(f, errors='replace').read()))
    for mm in mang:
        open(os.path.join(out, os.path.basename(mm)), 'w').write('#pragma once\n' + ''.join('#define %s %s_\n' % (n.upper(), n) for n in sorted(names)))


def run(main, files, dim=2, args=()):
    """0 when the program built from main and the sources says so"""
    t = tempfile.mkdtemp(prefix='demo')
    try:
        src = os.path.join(os.getcwd(), 'source')
        forwarders(t, src)
        open(t + '/main.cc', 'w').write(main)
        fl = ['-std=c++17', '-w', '-O0', '-ffunction-sections', '-DNDEBUG', '-DOMPI_SKIP_MPICXX', '-DHAVE_NETCDF4', '-DNDIM=%d' % dim, '-DMAX_POL_T_INDEX=2', '-I' + t, '-I' + HERE + '/mini',
              '-I' + HERE + '/ext', '-I' + src, '-I' + src + '/samrai', '-I' + src + '/fortran', '-I/usr/lib/x86_64-linux-gnu/openmpi/include', '-I/usr/include/hypre']
        ps = [subprocess.Popen(['g++'] + fl + ['-include', 'mini_all.h', '-c', f, '-o', t + '/%d.o' % i]) for i, f in enumerate([t + '/main.cc'] + [src + '/' + f for f in files])]
        if any([p.wait() for p in ps]):
            raise SystemExit('does not compile')
        subprocess.check_call(['g++', '-o', t + '/m'] + glob.glob(t + '/*.o') + ['-Wl,--gc-sections', '-Wl,--unresolved-symbols=ignore-all', '-no-pie', '-lHYPRE', '-lmpi', '-lm'])
        return subprocess.call([t + '/m'] + list(args), cwd=t)
    finally:
        shutil.rmtree(t)
