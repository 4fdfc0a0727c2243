"""numbering of grains, their diagnostics, and extension of their orientation"""
from kgrain import *
MODULE = 'TraceGrain'
DIMS = ()
CX = ['sys']
CXDIMS = (2, 3)
MC = [('MCGrain', 'MCGrain'), ('MCGrain', 'MCGrainP', 'thorough')]
ASSUMPTIONS = ['mini-SAMRAI stands for SAMRAI: levels, patches and their fill and coarsen schedules', 'grains small enough for the numbering to converge']


def drive(ctx):
    for dim in (2, 3):
        for i in range(ctx.n(120 if dim == 2 else 30, 800)):
            numbering(ctx, dim)
        for i in range(ctx.n(30 if dim == 2 else 12, 200)):
            extension(ctx, dim)
