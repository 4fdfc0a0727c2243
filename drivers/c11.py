from kern import *
import kquat, qops
MODULE = 'TraceQuat'
DIMS = (2, 3)
CX = ['qops']
MC = [('MCQuatG', 'MCQuatG')]
ASSUMPTIONS = ['operations with irrational entries checked to about 1e-2, the others exactly']


def drive(ctx):
    for key in kquat.ALL:
        k = REG[key]
        for dim in k.dims:
            for i in range(ctx.n(30 if dim == 2 else 12, 150)):
                k.event(ctx, dim, mx=4 if dim == 2 else 2)
    for key in qops.C11:
        k = REG[key]
        for dim in k.dims:
            for i in range(ctx.n(16 if dim == 2 else 6, 80)):
                if k.event(ctx, dim, mx=4 if dim == 2 else 2) is None:
                    break
