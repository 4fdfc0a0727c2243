"""composition is conserved"""
from kern import *
import kcomp
import ksys
MODULE = 'TraceComp'
DIMS = ()
CX = ['comp', 'sys']
CXDIMS = (2, 3)
MC = [('MCTile', 'MCTileB'), ('MCTile', 'MCTile4', 'thorough')]
ASSUMPTIONS = ['mini-SAMRAI stands for SAMRAI: levels, patches and their fill and coarsen schedules', 'time integration and solvers are not run, only the rates and energies of given fields', 'Cahn-Hilliard, sintering and fourth-order stencils on periodic domains only']


def drive(ctx):
    run(ctx, ['czero'], 20, 10)
    for dim in (2, 3):
        for i in range(ctx.n(4 if dim == 2 else 1, 20)):
            for name in ksys.CONS:
                ksys.closed(ctx, dim, name)
