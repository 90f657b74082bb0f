from cycle_common import *

def run(ctx):
    design("MC_VCycle", "MC_VCycle.cfg", ctx.work, ctx,
           expect_actions=("Smooth", "Descend", "Solve", "Ascend", "Return"))
    check(ctx, 3 if not ctx.thorough else 20)
