"""Linearity, symmetry, fixed point and energy of the real library's hierarchies."""
from setup_common import *

SYMMETRIC = ("Jacobi", "Symmetric Gauss-Seidel", "ILU", "Chebyshev")

def run(ctx):
    design("MC_Converge", "MC_Converge.cfg", ctx.work, ctx,
           expect_actions=("Sweep", "Correct"))
    exe = build_setup(ctx)
    def make(n):
        rng, out = ctx.rng, []
        ms = [(2, mesh("cube", 2)), (2, mesh("rect", 0, reps=[4, 3])),
              (2, mesh("ell", 1)), (2, mesh("uneven", 1, n=2)), (2, mesh("cube", 3)),
              (2, mesh("ball", 1)), (3, mesh("cube", 1)),
              (3, mesh("rect", 0, reps=[3, 2, 2])), (2, mesh("cube", 1))]
        for dim, m in ms:
            for free in (False, True):
                for _ in range(6 if ctx.thorough else 1):
                    a = rng.choice([block(1, 1, 1), block(2, 2, 2), block(2, 1, 1),
                                    block(9, 9, 9), part(2), part(3)])
                    if m["kind"] == "ball" and a == block(1, 1, 1):
                        a = block(2, 2, 2)
                    eig = "lanczos" if free else rng.choice(["lapack", "lapack", "arpack"])
                    # the coarse problem has to be solvable: fewer rows than
                    # unconstrained degrees of freedom, and independent ones
                    dirichlet = 0 if m["kind"] in ("ell", "ball", "uneven") \
                        else rng.choice([0, 1])
                    neig = 1 if free or a == block(1, 1, 1) else \
                        enough(rng.choice([1, 1, 2]), m, dirichlet)
                    more, pre = {}, rng.random() < .5
                    if not free and rng.random() < .15:
                        more["max levels"] = 1
                    if rng.random() < .5:
                        more["fast_ap"] = rng.random() < .5
                    if not pre or rng.random() < .5:
                        more["is preconditioner"] = pre
                    if rng.random() < .7:
                        more["smoother.n_smoothing_steps"] = rng.choice([0, 1, 2, 3])
                    sm = "Chebyshev" if free else "Symmetric Gauss-Seidel"
                    if rng.random() < .7:
                        sm = sm if free else rng.choice(
                            ["Jacobi", "Gauss-Seidel", "Symmetric Gauss-Seidel", "ILU"])
                        more["smoother.type"] = rng.choice([sm, sm.upper(), sm.lower()])
                    s = scenario(dim, m, params(eig, neig, a, **more),
                                 "free" if free else "matrix", mode="apply",
                                 coef=rng.choice([0, 1, 2]), mass=rng.choice([1, 2]),
                                 dirichlet=dirichlet, unit=0, seed=rng.randrange(1000),
                                 xup=rng.choice([0, 0, -50, -170, 60]))
                    exact = eig == "lapack" or more.get("fast_ap") is not True
                    s["begin"] = {"symmetric": sm in SYMMETRIC and exact,
                                  "energy": exact, "standalone": not pre}
                    out.append(s)
        return out
    joined(ctx, exe, "ConvergeTrace", "ConvergeTrace.cfg", make,
           (1, 2, 3) if not ctx.thorough else (1, 2, 3, 5))
