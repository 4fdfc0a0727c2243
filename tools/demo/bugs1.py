bug('C01-1', 'C01', [('source/fortran/2d/laplacian.m4', 'dyinv2 = 1.d0/(dx(1)*dx(1))', 'dyinv2 = 1.d0/(dx(0)*dx(1))')],
    'a grid whose spacing differs between x and y',
    'the y part of the 2D Laplacian is scaled by 1/(hx*hy) instead of 1/hy^2: invisible on square cells',
    '''
import kt
L = kt.build(2, ['laplacian'])
lo, hi = (-2, 3), (2, 6)
f = kt.A(lo, hi, 1).set(lambda i, j: float(j * j))
r = kt.A(lo, hi, 0)
kt.call(L, 'laplacian', lo[0], hi[0], lo[1], hi[1], [1., .5], 1.0, f, 1, r, 0)
for c in kt.idx(lo, hi):
    kt.expect(kt.close(r[c], 8.), 'laplacian of y^2/h^2 at %s: %g' % (c, r[c]))
''')
bug('C11-1', 'C11', [('source/fortran/3d/correctrhsquatforsymmetry.m4',
     'iq = -1 * iqrot_z(i,j,k+1)\n                  call quatsymmrotate( dtmp_z, iq, dprime_z, depth )',
     'iq = -1 * iqrot_z(i,j,k)\n                  call quatsymmrotate( dtmp_z, iq, dprime_z, depth )')],
    '3D run with crystal symmetry where two consecutive z sides of a cell carry different symmetry rotations',
    'the correction through the upper z side is rotated back with the rotation of the lower z side',
    '''
import kt
L = kt.build(3, ['correctrhsquatforsymmetry'])
lo, hi = (0, 0, 0), (0, 0, 0)
dep = 4
iq = [kt.A(lo, hi, 1, d, integer=True, fill=1) for d in range(3)]
iq[2][0, 0, 0] = 5
iq[2][0, 0, 1] = 3
sd = [kt.A(lo, hi, 1, d, dep) for d in range(3)]
nd = [kt.A(lo, hi, 1, d, dep) for d in range(3)]
v = [1., 2., 3., 4.]
for m in range(dep):
    sd[2][0, 0, 1, m] = v[m]
# the rotated-back difference equals the plain one: no correction
import numpy as np
out = np.zeros(4)
kt.call(L, 'quatsymmrotate', np.array(v), -3, out, 4)
for m in range(dep):
    nd[2][0, 0, 1, m] = out[m]
co = [kt.A(lo, hi, 0, d, fill=1.) for d in range(3)]
rhs = kt.A(lo, hi, 0, depth=dep)
q = kt.A(lo, hi, 0, depth=dep)
q[0, 0, 0, 0] = 1.
kt.call(L, 'correctrhsquatforsymmetry', 0, 0, 0, 0, 0, 0, dep, [1., 1., 1.], *nd, *sd, 1, rhs, 0, q, 0, *co, 0,
        kt.A(lo, hi, 0, fill=1.), 0, *iq, 1)
for m in range(dep):
    kt.expect(kt.close(rhs[0, 0, 0, m], 0.), 'component %d changed: %g' % (m, rhs[0, 0, 0, m]))
''')
bug('C06-1', 'C06', [('source/fortran/functions.f', "phit = max( 0.d0, phi )\n\n         deriv_interp_func = phit * ( 4.d0 - 3.d0 * phit )",
                     "phit = max( 0.d0, min( 1.d0, phi ) )\n\n         deriv_interp_func = phit * ( 4.d0 - 3.d0 * phit )")],
    "interpolation law 'w' evaluated for a phase value above one",
    "the derivative of the 'w' interpolation is clipped above 1 while the function itself is not: it is no longer its derivative there",
    '''
import kt
L = kt.build(2, [])
for x in (-.5, .25, .75, 1.25, 1.5):
    h = 1e-4
    d = (kt.func(L, 'interp_func', x + h, 'wang') - kt.func(L, 'interp_func', x - h, 'wang')) / (2 * h)
    kt.expect(abs(kt.func(L, 'deriv_interp_func', x, 'wang') - d) < 1e-5, 'derivative at %g' % x)
''')
bug('C09-1', 'C09', [('source/fortran/2d/quatenergy.m4', '''               energy(i,j) = energy(i,j) + e
            endif
            e = e * weight(i,j)

            total_energy = total_energy + e
            total_free_e = total_free_e + e''', '''               energy(i,j) = energy(i,j) + e
               e = e * weight(i,j)
            endif

            total_energy = total_energy + e
            total_free_e = total_free_e + e''')],
    'bulk energy computed without the per-cell map, on a level with covered or non-unit-weight cells',
    'the bulk energy total is weighted by the cell volume only when the per-cell energy map is requested',
    '''
import kt, numpy as np
L = kt.build(2, ['quatenergy'])
lo, hi = (0, 0), (2, 1)
phi = kt.A(lo, hi, 0, fill=1.)
fl, fa = kt.A(lo, hi, fill=2.), kt.A(lo, hi, fill=3.)
w = kt.A(lo, hi).set(lambda i, j: .25 if i < 2 else 0.)
for per in (0, 1):
    t, f = np.zeros(1), np.zeros(1)
    e = kt.A(lo, hi)
    kt.call(L, 'bulkenergy', 0, 2, 0, 1, phi, 0, fl, fa, w, t, f, e, per, 'pbg')
    kt.expect(kt.close(t[0], 3.) and kt.close(f[0], 3.), 'total %g %g (per cell: %d)' % (t[0], f[0], per))
''')
bug('C05-1', 'C05', [('source/fortran/2d/quatrhs.m4', 'q=0.5*(quat(i,j-1,1)+quat(i,j,1))', 'q=0.5*(quat(i-1,j,1)+quat(i,j,1))')],
    '2D anisotropic interface with an orientation that varies across a y side (between grains)',
    'the reference direction on y sides is averaged with the x neighbour',
    '''
import kt, math
L = kt.build(2, ['quatrhs', 'laplacian'])
lo, hi = (0, 0), (2, 2)
ph = kt.A(lo, hi, 1).set(lambda i, j: i + 2. * j)
def flux(f):
    q = kt.A(lo, hi, 1, depth=2).set(f)
    F = [kt.A(lo, hi, 0, d) for d in range(2)]
    kt.call(L, 'anisotropic_gradient_flux', 0, 2, 0, 2, [1., 1.], 1.0, .1, 4, ph, 1, q, 1, 2, *F, 0)
    return F
# orientation depending on y only / uniform equal to the side average: same y flux
F = flux(lambda i, j, m: .5 if j < 1 else .25)
G = flux(lambda i, j, m: .375)
kt.expect(kt.close(F[1][1, 1], G[1][1, 1]), 'y flux %g, expected %g' % (F[1][1, 1], G[1][1, 1]))
H = flux(lambda i, j, m: .5 if i < 1 else .25)
kt.expect(kt.close(H[0][1, 1], G[0][1, 1]), 'x flux %g, expected %g' % (H[0][1, 1], G[0][1, 1]))
''')
bug('C16-1', 'C16', [('source/fortran/3d/temperature.m4', 'cp(i,j,k) = cp(i,j,k) + cpval*mc', 'cp(i,j,k) = cp(i,j,k)\n     &             + cpval*max(0.d0,min(mc,1.d0-conc(i,j,k,nc)))')],
    '3D heat capacity with two or more solutes where the last solute and the solvent fraction differ so that 1-c_n < solvent fraction, i.e. another solute is negative',
    'the solvent part of the heat capacity is clipped with the last solute only',
    '''
import kt
L = kt.build(3, ['temperature'])
lo = hi = (0, 0, 0)
c = kt.A(lo, hi, 0, depth=2)
c[0, 0, 0, 0], c[0, 0, 0, 1] = -.25, .5
t = kt.A(lo, hi, 0, fill=2.)
cp = kt.A(lo, hi, 0)
kt.call(L, 'heat_capacity_nkr', 0, 0, 0, 0, 0, 0, c, 0, 2, t, 0, cp, 0, [0, 1], 2, [1., 1., 2., 0., 4., 2.], 6)
kt.expect(kt.close(cp[0, 0, 0], -.25 * 3 + .5 * 2 + .75 * 8), 'cp %g' % cp[0, 0, 0])
''')
