from kern import *
import crigid
MODULE = 'TraceRigid'
DIMS = (2, 3)
CX = ['rigid']
MC = []
ASSUMPTIONS = ['integer order parameters; body volumes powers of two; cut-off arguments multiples of 1/4']


def drive(ctx):
    run(ctx, crigid.ALL, 30, 12)
