"""Products of matrix-free operators with transposed matrices, and rows."""
import op_common
from op_common import *

def run(ctx):
    design("MC_OpAlg", "MC_OpAlgDeep.cfg" if ctx.thorough else "MC_OpAlg.cfg",
           ctx.work, ctx, workers=8, expect_actions=("Program", "Send", "Arrive", "Fill"))
    op_common.check(ctx, ["product", "product", "row", "row", "multiply_transpose", "apply",
                          "vectors"], "products", .3, .5,
                    400 if ctx.thorough else 60)
