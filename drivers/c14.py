"""transfers between levels"""
from ktrans import *
MODULE = 'TraceTrans'
DIMS = ()
CX = ['transfer']
CXDIMS = (2, 3)
MC = [('MCTrans', 'MCTrans')]
ASSUMPTIONS = ['mini-SAMRAI stands for SAMRAI: patches, their data and overlaps of cells', 'orientations within 14 degrees or so of one another up to symmetry; directions to 2^-8', 'averages that ignore symmetry: integer orientations, directions to 2^-10']


def drive(ctx):
    r = ctx.rng
    for dim in (2, 3):
        if lib(ctx, 'transfer', dim) is None:
            continue
        for i in range(ctx.n(80 if dim == 2 else 25, 1000)):
            ctx.t.scenario()
            coarsen(ctx, dim)
            coarsen(ctx, dim, r.random() < .5)
            refine(ctx, dim, r.random() < .7)
