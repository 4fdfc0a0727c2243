from kern import *
import kgrad, qops
MODULE = 'TraceGrad'
DIMS = (2, 3)
CX = ['qops']
MC = []
ASSUMPTIONS = ['dyadic data: kernels are exact on it, other inputs follow by (multi)linearity of the operators']


def drive(ctx):
    for key in kgrad.ALL:
        k = REG[key]
        for dim in k.dims:
            for i in range(ctx.n(12 if dim == 2 else 6, 60)):
                k.event(ctx, dim, mx=4 if dim == 2 else 3)
    for key in qops.C01:
        k = REG[key]
        for dim in k.dims:
            for i in range(ctx.n(8 if dim == 2 else 3, 40)):
                if k.event(ctx, dim, mx=4 if dim == 2 else 3) is None:
                    break
