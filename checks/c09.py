"""Set-up of hierarchies: of generated integer operators, and of the real library."""
import cycle_common
from setup_common import *

def run(ctx):
    design("MC_VCycle", "MC_VCycle.cfg", ctx.work, ctx,
           expect_actions=("Smooth", "Descend", "Solve", "Ascend", "Return"))
    cycle_common.check(ctx, 2 if not ctx.thorough else 12)
    exe = build_setup(ctx)
    def make(n):
        rng, out = ctx.rng, []
        ms = [(2, mesh("cube", 2)), (2, mesh("rect", 0, reps=[4, 3])),
              (2, mesh("ell", 1)), (2, mesh("uneven", 1, n=2)), (2, mesh("cube", 1)),
              (2, mesh("ball", 0)), (3, mesh("cube", 1)),
              (3, mesh("rect", 0, reps=[3, 2, 2])), (2, mesh("cube", 0))]
        for dim, m in ms:
            for free in (False, True):
                for _ in range(8 if ctx.thorough else 2):
                    a = rng.choice([block(1, 1, 1), block(2, 2, 2), block(2, 1, 1),
                                    block(9, 9, 9), part(2), part(3)])
                    eig = "lanczos" if free else "lapack"
                    neig = 1 if free else rng.choice([1, 1, 2])
                    more = {}
                    if not free and rng.random() < .25:
                        more["max levels"] = 1
                    elif rng.random() < .5:
                        more["max levels"] = 2
                    if rng.random() < .6:
                        more["fast_ap"] = rng.random() < .5
                    if rng.random() < .5:
                        more["is preconditioner"] = rng.random() < .5
                    if rng.random() < .5:
                        more["smoother.n_smoothing_steps"] = rng.choice([0, 1, 3])
                    if rng.random() < .5:
                        more["smoother.type"] = "Chebyshev" if free else rng.choice(
                            ["Jacobi", "Gauss-Seidel", "Symmetric Gauss-Seidel"])
                    if rng.random() < .4:
                        more["coarse.type"] = "direct"
                    dirichlet = rng.choice([0, 1])
                    neig = enough(neig, m, dirichlet)
                    p = params(eig, neig, a, **more)
                    if neig == 1 and rng.random() < .5:
                        del p["eigensolver.number of eigenvectors"]
                    out.append(scenario(
                        dim, m, p, "free" if free else "matrix",
                        coef=rng.choice([0, 1, 2]), mass=rng.choice([1, 2]),
                        dirichlet=dirichlet, solvable=False,
                        extra=0 if eig == "lapack" else 20000))
        return out
    joined(ctx, exe, "GalerkinTrace", "GalerkinTrace.cfg", make,
           (1, 2, 3) if not ctx.thorough else (1, 2, 3, 5, 8))
