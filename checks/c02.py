"""Block agglomerates are the blocks the specification's machine builds, and
tile lattices exactly on one processor."""
from agg_common import *

def run(ctx):
    design_model(ctx)
    def make(n):
        rng, out = ctx.rng, []
        for dim, m, lattice in uniform_meshes(ctx.thorough):
            N = 4 if dim == 2 else 3
            sizes = [(x, y, z) for x in range(1, N + 1) for y in range(1, N + 1)
                     for z in range(1, (1 if dim == 2 else N) + 1)]
            sizes += [(100, 1, 1), (1, 100, 2), (3, 3, 100), (7, 5, 2)]
            k = 5 if n > 1 else 9
            for s in (sizes if ctx.thorough else rng.sample(sizes, k)):
                out.append({"dim": dim, "mesh": m,
                            "lattice": 1 if n == 1 and lattice else 0,
                            "ops": [agg(block(*s, name=rng.choice(
                                ["block", "Block", "BLOCK"])))],
                            "what": "%s block %s" % (label(dim, m), s)})
        return out
    check(ctx, "block", make, (1, 2, 4) if not ctx.thorough
          else (1, 2, 3, 4, 5, 7, 8))
