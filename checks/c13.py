"""Smoothing steps."""
import smooth_common
from smooth_common import *

def run(ctx):
    design("MC_Smoother", "MC_Smoother.cfg", ctx.work, ctx, workers=8,
           expect_actions=("Next",))
    kinds = list(KINDS) + ["chebyshev"]
    smooth_common.check(ctx, lambda rng, n, i: chebyshev(rng)
                        if kinds[i % 5] == "chebyshev" else smoothing(rng, n, kinds[i % 5]),
                        600 if ctx.thorough else 100)
