"""the parameters of a model are those of its input database"""
from kparam import *
MODULE = 'TraceParam'
DIMS = ()
CX = ['params']
CXDIMS = (2, 3)
MC = []
ASSUMPTIONS = ['databases are read through the mini-SAMRAI memory database', 'single faults: a database is refused for what it lacks or misnames, whatever the message']


def drive(ctx):
    for dim in (2, 3):
        for i in range(ctx.n(3000 if dim == 2 else 600, 15000)):
            if i % 50 == 0:
                ctx.t.scenario()
            params(ctx, dim)
