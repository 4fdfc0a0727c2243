"""temperature histories"""
import unit
MODULE = 'TraceUnit'
DIMS = (2,)
CX = ['units']
MC = []
ASSUMPTIONS = ['dyadic positions and times']


def drive(ctx):
    unit.history(ctx, ctx.n(80, 1200))
