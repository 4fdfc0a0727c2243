from kern import *
import ktemp
MODULE = 'TraceTemp'
DIMS = (2, 3)
MC = []
ASSUMPTIONS = ['heat capacities 1, 2, 4; integer compositions and temperatures; Gaussian to 2^-18']


def drive(ctx):
    run(ctx, ktemp.ALL, 100, 40)
