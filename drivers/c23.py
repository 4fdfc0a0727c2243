"""event intervals"""
import unit
MODULE = 'TraceUnit'
DIMS = (2,)
CX = ['units']
MC = [('MCEvents', 'MCEvents')]
ASSUMPTIONS = ['times are multiples of 1/8']


def drive(ctx):
    unit.events(ctx, ctx.n(300, 4000))
