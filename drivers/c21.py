from kern import *
import kmob
MODULE = 'TraceMob'
DIMS = (2, 3)
CX = ['qops']
MC = []
ASSUMPTIONS = ['order parameters multiples of 1/4, gradients of integer norm, temperatures and activation energies with Arrhenius factors powers of two']


def drive(ctx):
    run(ctx, kmob.KERN, 40, 16)
    run(ctx, kmob.OPS, 24, 8)
