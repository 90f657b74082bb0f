"""The fast product of the matrix-based and of the matrix-free path."""
from setup_common import *

def run(ctx):
    product_model(ctx)
    exe = build_setup(ctx)
    def make(n):
        rng, out = ctx.rng, []
        ms = [(2, mesh("cube", 2)), (2, mesh("rect", 0, reps=[4, 3])),
              (2, mesh("ell", 1)), (2, mesh("uneven", 0, n=3)),
              (2, mesh("uneven", 1, n=2)), (2, mesh("cube", 1)), (2, mesh("ball", 0)),
              (3, mesh("cube", 1)), (3, mesh("rect", 0, reps=[3, 2, 2])),
              (2, mesh("cube", 0)), (3, mesh("uneven", 0, n=2)), (2, mesh("two", 1))]
        for dim, m in ms:
            for free in (False, True):
                for _ in range(8 if ctx.thorough else 2):
                    a = rng.choice([block(1, 1, 1), block(2, 2, 2), block(2, 1, 1),
                                    block(1, 2, 1), block(9, 9, 9), part(2), part(3)])
                    if m["kind"] in ("uneven",) and rng.random() < .7:
                        a = block(1, 1, 1)
                    eig = "lanczos" if free else rng.choice(["lapack", "lapack", "arpack"])
                    neig = 1 if free else rng.choice([1, 2, 3] if eig == "lapack" else [1, 1, 2])
                    mass = rng.choice([0, 1, 2])
                    dirichlet = rng.choice([0, 1, 1, 2] if m["refine"] > 1 else [0, 1])
                    # no more eigenvectors than unconstrained degrees of freedom
                    neig = enough(neig, m, dirichlet)
                    if mass == 0 and (dirichlet == 0 or m["kind"] in ("two", "uneven")):
                        mass = 1  # the coarse problem has to be solvable
                    out.append(scenario(
                        dim, m, params(eig, neig, a, fast_ap=True),
                        "free" if free else "matrix", coef=rng.choice([0, 1, 2, 3] if dim == 2 else [0, 1, 2]),
                        mass=mass, dirichlet=dirichlet, solvable=False,
                        extra=0 if eig == "lapack" else 20000))
        return out
    joined(ctx, exe, "GalerkinTrace", "GalerkinTrace.cfg", make,
           (1, 2, 3) if not ctx.thorough else (1, 2, 3, 5, 8))
