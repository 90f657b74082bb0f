"""Set-up and application on more processors than there is work for."""
from setup_common import *

def run(ctx):
    exe = build_setup(ctx)
    rng = ctx.rng
    # 1. every processor's share of the matrices (processors without cells)
    def make(n):
        out = []
        ms = [(2, mesh("cube", 1)), (2, mesh("cube", 0)), (2, mesh("rect", 0, reps=[3, 1])),
              (2, mesh("uneven", 0, n=3)), (2, mesh("cube", 2)), (2, mesh("ell", 1)),
              (3, mesh("cube", 1)), (3, mesh("rect", 0, reps=[2, 1, 2]))]
        for dim, m in ms:
            for free in (False, True):
                for _ in range(3 if ctx.thorough else 1):
                    a = rng.choice([block(1, 1, 1), block(2, 1, 1), block(9, 9, 9),
                                    part(1), part(2)])
                    dirichlet = rng.choice([0, 1])
                    neig = 1 if free else enough(rng.choice([1, 2]), m, dirichlet)
                    out.append(scenario(
                        dim, m, params("lanczos" if free else "lapack", neig, a,
                                       fast_ap=rng.random() < .5),
                        "free" if free else "matrix",
                        mode=rng.choice(["hierarchy", "hierarchy", "restr"]),
                        coef=rng.choice([0, 1, 2]), mass=rng.choice([1, 2]),
                        dirichlet=dirichlet, solvable=False,
                        extra=20000 if free else 0))
        return out
    joined(ctx, exe, "GalerkinTrace", "GalerkinTrace.cfg", make,
           (2, 3, 4, 6, 8) if not ctx.thorough else (2, 3, 4, 5, 6, 7, 8))
    # 2. the same agglomerates on one and on several processors: the same result
    def same():
        out = []
        ms = [(2, mesh("cube", 1)), (2, mesh("cube", 0)), (2, mesh("rect", 0, reps=[3, 1])),
              (2, mesh("uneven", 0, n=3)), (2, mesh("cube", 2)), (2, mesh("ell", 1)),
              (2, mesh("cube", 3)), (3, mesh("cube", 1)),
              (3, mesh("rect", 0, reps=[3, 2, 2]))]
        for dim, m in ms:
            for _ in range(4 if ctx.thorough else 1):
                pre = rng.random() < .5
                coef = rng.choice([0, 1, 2])
                dirichlet = 0 if m["kind"] in ("ell", "uneven") else rng.choice([0, 1])
                s = scenario(
                    dim, m, params("lapack", 1, block(1, 1, 1), **{
                        "fast_ap": rng.random() < .5, "is preconditioner": pre,
                        "smoother.type": "Jacobi",
                        "smoother.n_smoothing_steps": rng.choice([0, 1, 2])}),
                    mode="apply", coef=coef, mass=rng.choice([1, 2]),
                    dirichlet=dirichlet, unit=0, seed=rng.randrange(1000),
                    xup=rng.choice([0, -60, 70]))
                s["begin"] = {"symmetric": True, "energy": True, "standalone": not pre}
                out.append(s)
        return out
    compared(ctx, exe, "ConvergeTrace", "ConvergeTrace.cfg", same,
             (2, 3, 5) if not ctx.thorough else (2, 3, 4, 5, 8))
