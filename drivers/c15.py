from kern import *
import ktag
MODULE = 'TraceTag'
DIMS = (2, 3)
CX = ['qops']
MC = []
ASSUMPTIONS = ['gradients small integers, spacings powers of two, thresholds multiples of 1/4; fields of the detector periodic']


def drive(ctx):
    run(ctx, ktag.KERN, 60, 30)
    run(ctx, ktag.OPS, 60, 25)
