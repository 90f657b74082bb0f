"""Weights of the restriction set up by the real library."""
from setup_common import *

def run(ctx):
    exe = build_setup(ctx)
    def make(n):
        rng, out = ctx.rng, []
        ms = [(2, mesh("cube", 2)), (2, mesh("rect", 0, reps=[4, 3])),
              (2, mesh("ell", 1)), (2, mesh("uneven", 0, n=3)),
              (2, mesh("cube", 1)), (2, mesh("ball", 0)), (2, mesh("two", 1)),
              (3, mesh("cube", 1)), (3, mesh("rect", 0, reps=[3, 2, 2])),
              (2, mesh("cube", 0)), (3, mesh("uneven", 0, n=2))]
        for dim, m in ms:
            for _ in range(12 if ctx.thorough else 4):
                a = rng.choice([block(1, 1, 1), block(2, 2, 2), block(2, 1, 1),
                                block(3, 2, 1), block(9, 9, 9), part(2), part(3),
                                part(2, "metis"), part(20)])
                if a["partitioner"] == "metis" and n > 1:
                    a = part(4)
                eig = rng.choice(["lapack", "lapack", "arpack", "lanczos"])
                free = eig == "lanczos" and rng.random() < .5
                neig = rng.choice([1, 2, 3]) if eig == "lapack" else 1
                dirichlet = rng.choice([0, 1, 1, 2] if m["refine"] > 1 else [0, 1])
                neig = enough(neig, m, dirichlet)
                out.append(scenario(
                    dim, m, params(eig, neig, a), "free" if free else "matrix",
                    mode="restr", both=rng.choice([0, 1]) if eig == "lapack" else 0,
                    coef=rng.choice([0, 1, 2, 3] if dim == 2 else [0, 1, 2]),
                    mass=rng.choice([0, 1, 2]), dirichlet=dirichlet,
                    extra=0 if eig == "lapack" else 20000))
        return out
    joined(ctx, exe, "GalerkinTrace", "GalerkinTrace.cfg", make,
           (1, 2, 3) if not ctx.thorough else (1, 2, 3, 5, 8))
