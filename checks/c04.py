"""Boundary agglomerates: exactly the cells next to another agglomerate, and the
cells there, through shared vertices, processors' borders included."""
from agg_common import *

def run(ctx):
    design_model(ctx)
    def make(n):
        rng, out = ctx.rng, []
        for dim, m, _ in uniform_meshes(ctx.thorough):
            for s in ([(2, 2, 2), (1, 1, 1), (3, 2, 1), (100, 100, 100)]
                      if ctx.thorough else [rng.choice(
                          [(2, 2, 2), (1, 1, 1), (3, 2, 1), (100, 100, 100)])]):
                out.append({"dim": dim, "mesh": m,
                            "ops": [agg(block(*s)), {"do": "boundary"}],
                            "what": "%s block %s" % (label(dim, m), s)})
        for dim, m, _ in uniform_meshes(ctx.thorough) + adaptive_meshes(ctx.thorough):
            k, kind = rng.choice([1, 2, 3, 6]), rng.choice(["zoltan", "metis"])
            out.append({"dim": dim, "mesh": m,
                        "ops": [agg(part(k, kind)), {"do": "boundary"},
                                {"do": "boundary"}],
                        "what": "%s %s %d" % (label(dim, m), kind, k)})
        return out
    check(ctx, "boundary", make, (1, 2, 3) if not ctx.thorough
          else (1, 2, 3, 4, 5, 8))
