from kern import *
import krhs, cphase, klev
MODULE = 'TraceRhs'
DIMS = (2, 3)
MC = []
CX = ["phase"]
ASSUMPTIONS = ['order parameters multiples of 1/8 (1/4 with two order parameters), integer fluxes and energies']


def drive(ctx):
    run(ctx, krhs.FLUX + krhs.PHASE, 60, 24)
    run(ctx, ['c_withq', 'c_multi', 'c_three'], 32, 10)
    for dim in (2, 3):
        for i in range(ctx.n(120 if dim == 2 else 30, 1500)):
            if i % 4 == 0:
                ctx.t.scenario()
            klev.phase(ctx, dim)
