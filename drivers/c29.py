"""run control, output schedules, restart"""
import runctl
MODULE = 'TraceRun'
DIMS = (2, 3)
CX = ['runctl']
MC = [('MCRun', 'MCRun'), ('MCRun', 'MCRun1', 'thorough'), ('MCEvents', 'MCEvents')]
ASSUMPTIONS = ['times are multiples of 1/8', 'the model advances by given positive steps', 'one restart file per step and directory is read back']


def drive(ctx):
    runctl.runs(ctx, ctx.n(120, 2500))
