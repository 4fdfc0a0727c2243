"""symmetry and translation equivariance of the whole model"""
from ksys import *
MODULE = 'TraceSys'
DIMS = ()
CX = ['sys']
CXDIMS = (2, 3)
MC = []
ASSUMPTIONS = ['mini-SAMRAI stands for SAMRAI: levels, patches and their fill and coarsen schedules', 'time integration and solvers are not run, only the rates and energies of given fields', 'Cahn-Hilliard, sintering and fourth-order stencils on periodic domains only']


def drive(ctx):
    for dim in (2, 3):
        for i in range(ctx.n(4 if dim == 2 else 2, 20)):
            for name in ALL:
                same(ctx, dim, name, 'equiv')
    for i in range(ctx.n(2, 10)):
        for name in SLAB:
            slab(ctx, name)
