from kern import *
import krhs, cphase
MODULE = 'TraceRhs'
DIMS = (2, 3)
CX = ['phase']
MC = []
ASSUMPTIONS = ['integer fields, integer velocities']


def drive(ctx):
    run(ctx, krhs.FRAME, 30, 12)
    run(ctx, ['c_frame'], 60, 24)
