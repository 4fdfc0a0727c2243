from kern import *
import kenergy
MODULE = 'TraceEnergy'
DIMS = (2, 3)
MC = []
ASSUMPTIONS = ['order parameters multiples of 1/4 (1/8 for bulk energies), integer temperatures and weights; cubic-anisotropy energies to 0.5%']


def drive(ctx):
    run(ctx, kenergy.ALL, 120, 50)
