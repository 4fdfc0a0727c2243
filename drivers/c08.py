from kern import *
import krhs, cphase
MODULE = 'TraceRhs'
DIMS = (2, 3)
CX = ['phase']
MC = []
ASSUMPTIONS = ['order parameters multiples of 1/8 (constrained model) or integers (multi-order model)']


def drive(ctx):
    run(ctx, krhs.MULTI, 40, 16)
    run(ctx, ['c_multi', 'c_three', 'c_project'], 30, 12)
