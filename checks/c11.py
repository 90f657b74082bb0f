"""The operator algebra on distributed sparse matrices."""
import op_common
from op_common import *

def run(ctx):
    design("MC_OpAlg", "MC_OpAlgDeep.cfg" if ctx.thorough else "MC_OpAlg.cfg",
           ctx.work, ctx, workers=8, expect_actions=("Program", "Send", "Arrive", "Fill"))
    op_common.check(ctx, ["apply", "apply", "transpose", "multiply", "multiply_transpose",
                          "vectors", "serial"], "operators", 0., 0.,
                    400 if ctx.thorough else 60)
