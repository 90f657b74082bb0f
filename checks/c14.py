"""Coarse solves."""
import smooth_common
from smooth_common import *

def run(ctx):
    smooth_common.check(ctx, lambda rng, n, i: coarse_ml(rng, n) if i % 5 == 4
                        else coarse(rng, n), 500 if ctx.thorough else 80)
