"""collectives and database copies"""
import unit
MODULE = 'TraceUnit'
DIMS = (2,)
CX = ['units']
MC = []
ASSUMPTIONS = ['ranks are threads of one process; collectives follow the MPI standard']


def drive(ctx):
    unit.collectives(ctx, ctx.n(80, 1000))
    unit.dbs(ctx, ctx.n(40, 400))
