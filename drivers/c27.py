"""orientation utilities"""
import pyquat
MODULE = 'TraceOrient'
DIMS = ()
MC = [('MCQuat', 'MCQuat1')]
ASSUMPTIONS = ['integer quaternions; symmetry operations as integer representatives']


def drive(ctx):
    pyquat.run(ctx, ctx.n(150, 2500))
