"""composition coefficients and anti-trapping"""
from kern import *
import kcomp
MODULE = 'TraceComp'
DIMS = ()
CX = ['comp']
CXDIMS = (2, 3)
MC = []
ASSUMPTIONS = ['mini-SAMRAI stands for SAMRAI: patches and their data', 'dyadic inputs: the laws hold exactly, or within the stated rounding']


def drive(ctx):
    run(ctx, kcomp.COEF + kcomp.ANTI, 8, 4)
