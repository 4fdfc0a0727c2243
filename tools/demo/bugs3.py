PYGEN = r'''
import os, subprocess, sys, tempfile, shutil
import numpy as np, netCDF4 as nc4
def gen(script, args, files={}):
    t = tempfile.mkdtemp(prefix='demo')
    try:
        for n, s in files.items(): open(t + '/' + n, 'w').write(s)
        subprocess.check_call([sys.executable, os.getcwd() + '/utils/' + script] + args + ['o.nc'], cwd=t, stdout=subprocess.DEVNULL)
        f = nc4.Dataset(t + '/o.nc'); d = {k: np.array(v[:]) for k, v in f.variables.items()}; f.close()
        return d
    finally:
        shutil.rmtree(t)
'''
bug('C28-1', 'C28', [('utils/make_multi_spheres.py', 'threshold = (radius[g]+5.*width)**2', 'threshold = radius[g]**2+5.*width')],
    'a diffuse interface (--width) wider than the slack the early rejection leaves',
    'the interface profile of a sphere is cut off on the planes and lines that do not cross the sphere itself',
    PYGEN + r'''
d = gen('make_multi_spheres.py', ['--spheres', 's.csv', '-x', '16', '-y', '16', '-z', '1', '--width', '2.'], {'s.csv': '8, 8, 0, 3\n'})
p = d['phase0'][0]
sys.exit(0 if np.abs(p - p.T).max() < 1e-6 else 1)
''')
bug('C28-2', 'C28', [('utils/make_nuclei.py', 'dy2=(y1-y2+jr*ny)**2', 'dy2=(y1-y2+jr*nx)**2')],
    'a domain longer in one direction than the other, periodic in y, and a grain that crosses that boundary',
    'a grain crossing the periodic y boundary reappears one x period away instead of one y period away',
    PYGEN + r'''
d = gen('make_nuclei.py', ['-x', '10', '-y', '16', '-z', '1', '-r', '3', '--center0', '5,1,1', '--periodic', '0,1,0'])
e = gen('make_nuclei.py', ['-x', '10', '-y', '16', '-z', '1', '-r', '3', '--center0', '5,9,1', '--periodic', '0,1,0'])
sys.exit(0 if (np.roll(d['phase'], 8, axis=1) == e['phase']).all() else 1)
''')
bug('C28-3', 'C28', [('utils/make_initial_grains_on_boundary.py', 'co[isp]=(c[isp]-ci[isp]*sf)/(1.-sf)', 'co[isp]=(c[isp]-ci[0]*sf)/(1.-sf)')],
    'an alloy of more than two species with different solid compositions',
    'the liquid composition of the second species is balanced with the solid composition of the first: the domain average is no longer the nominal composition',
    PYGEN + r'''
d = gen('make_initial_grains_on_boundary.py', ['-x', '4', '-y', '20', '-z', '1', '-d', '2', '--solid-fraction', '.25', '-c', '.3,.2', '--concentration-in', '.1,.4', '-w', '0'])
print(d['concentration0'].mean(), d['concentration1'].mean())
sys.exit(0 if abs(d['concentration0'].mean() - .3) < 1e-5 and abs(d['concentration1'].mean() - .2) < 1e-5 else 1)
''')
bug('C28-4', 'C28', [('utils/substituteInputParameter.py', 'if words[0]==parameter_name:', 'if words[0].startswith(parameter_name):')],
    'an input file with two parameters one of whose names begins with the other',
    'substituting a parameter also overwrites the parameters whose name starts with it',
    r'''
import os, subprocess, sys, tempfile, shutil
t = tempfile.mkdtemp(prefix='demo')
try:
    open(t + '/i', 'w').write('epsilon_phi = 1.\nepsilon_phi_max = 2.\n')
    o = subprocess.check_output([sys.executable, 'utils/substituteInputParameter.py', t + '/i', 'epsilon_phi', '3.'], text=True)
finally:
    shutil.rmtree(t)
sys.exit(0 if [x.split()[2] for x in o.strip().split('\n')] == ['3.', '2.'] else 1)
''')
PYQ = r'''
import sys, math, importlib.util
sys.dont_write_bytecode = True
s = importlib.util.spec_from_file_location('quat', 'utils/quat.py'); Q = importlib.util.module_from_spec(s); s.loader.exec_module(Q)
'''
bug('C27-1', 'C27', [('utils/quat.py', '    CRIT_DIFF = 2.0 * math.sin( math.pi / 8.0 )', '    CRIT_DIFF = 2.0 * math.sin( math.pi / 6.0 )')],
    'plane orientations between 45 and 60 degrees apart (in the angle of the complex number)',
    'the search for the closest equivalent orientation stops at one that is not the closest',
    PYQ + r'''
for k in range(360):
    t = math.radians(k + .5)
    q = Q.quatSymm(Q.makeQuat2(1, 0), Q.makeQuat2(math.cos(t), math.sin(t)))
    if q[0] < math.cos(math.radians(45.5)): print(k, q); sys.exit(1)
sys.exit(0)
''')
bug('C27-2', 'C27', [('utils/quat.py', '    if ( nn == iq ) : continue\n\n    diff, q2_prime = quatDiff( ', '    if ( nn <= iq ) : continue\n\n    diff, q2_prime = quatDiff( ')],
    'a search started from another rotation than the identity',
    'the equivalent orientation found depends on the rotation tried first and is not the closest one',
    PYQ + r'''
a = Q.makeNormalizedQuat(1, .1, .2, -.1)
for iq in range(0, 48, 5):
    q = Q.quatSymm(a, Q.makeNormalizedQuat(1, .12, .2, -.1), iq)
    if sum(x * y for x, y in zip(a, q)) < .98: print(iq, q); sys.exit(1)
sys.exit(0)
''')
