"""mobilities"""
import unit, kkim
MODULE = 'TraceUnit'
DIMS = (2, 3)
CX = ['units', 'kim']
CXDIMS = (2, 3)
MC = []
ASSUMPTIONS = ['coefficients for which logarithms are dyadic', 'three-phase weights only at interfaces of two phases and where two phases are equal; elsewhere bounds']


def drive(ctx):
    unit.calphad(ctx, ctx.n(120, 2000))
    for i in range(ctx.n(30, 500)):
        for dim in (2, 3):
            ctx.t.scenario()
            kkim.kim(ctx, dim)
