"""elliptic equations on nested levels: residuals, right-hand sides, smoothing, transfers, solves"""
import kfac
MODULE = 'TraceFac'
DIMS = ()
CXDIMS = (2, 3)
CX = ['fac']
MC = [('MCFac', 'MCFacS'), ('MCFac', 'MCFac', 'thorough')]
ASSUMPTIONS = ['up to three levels, ratios 1 to 4, integer fields; domain walls with given values or slopes, or periodic']
OPS = [('residual', 40, 14), ('rhs', 20, 6), ('smooth', 30, 8), ('restrict_s', 8, 2), ('restrict_r', 8, 2), ('prolong', 6, 2), ('prolong2', 6, 2), ('weights', 6, 2), ('norm', 6, 2), ('solve', 16, 5), ('coarse', 40, 12)]


def drive(ctx):
    for op, a, b in OPS:
        for dim, n in ((2, a), (3, b)):
            for _ in range(ctx.n(3 * n // 2, 12 * n)):
                kfac.fac(ctx, dim, op)
