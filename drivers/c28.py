"""initial-condition generators and text utilities"""
import pygen
MODULE = 'TraceInit'
DIMS = ()
MC = [('MCInit', 'MCInit')]
ASSUMPTIONS = ['grain geometry on exact lattices; interface profiles decoded through the inverse of their closed form']


def drive(ctx):
    pygen.run(ctx, ctx.n(12, 90))
