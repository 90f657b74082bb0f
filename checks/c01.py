"""Agglomerates partition the locally owned cells: every partitioner, meshes of
every shape, every number of processors, empty processors included."""
from agg_common import *

def run(ctx):
    design_model(ctx)
    def make(n):
        rng, out = ctx.rng, []
        for dim, m, _ in uniform_meshes(ctx.thorough):
            sizes = [(1, 1, 1), (2, 3, 2), (3, 2, 1), (100, 1, 7), (1, 5, 3)]
            if not ctx.thorough:
                sizes = [(2, 3, 2)] + rng.sample(sizes, 1)
            for s in sizes:
                out.append({"dim": dim, "mesh": m, "ops": [agg(block(*s))],
                            "what": "%s block %s" % (label(dim, m), s)})
        both = uniform_meshes(ctx.thorough) + adaptive_meshes(ctx.thorough)
        for dim, m, _ in both:
            for kind in ("zoltan", "metis"):
                ks = [1, 2, 3, 5, 8, 13]
                for k in (ks if ctx.thorough else rng.sample(ks, 1)):
                    out.append({"dim": dim, "mesh": m, "ops": [agg(part(k, kind))],
                                "what": "%s %s %d" % (label(dim, m), kind, k)})
        return out
    check(ctx, "partition", make, (1, 2, 3, 5) if not ctx.thorough
          else (1, 2, 3, 4, 5, 7, 8))
