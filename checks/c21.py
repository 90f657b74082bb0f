"""The same set-up with different numbers of threads and timings."""
from setup_common import *

def run(ctx):
    product_model(ctx)
    exe = build_setup(ctx)
    def make(n):
        rng, out = ctx.rng, []
        ms = [(2, mesh("cube", 2)), (2, mesh("rect", 0, reps=[4, 3])),
              (2, mesh("ell", 1)), (2, mesh("uneven", 1, n=2)), (2, mesh("ball", 0)),
              (2, mesh("uneven", 0, n=5)), (3, mesh("cube", 1)), (2, mesh("two", 1)),
              (3, mesh("rect", 0, reps=[3, 2, 2]))]
        for dim, m in ms:
            for free in (False, True):
                for mode in ("hierarchy", "restr"):
                    for _ in range(5 if ctx.thorough else 1):
                        a = rng.choice([block(1, 1, 1), block(1, 1, 1), block(2, 1, 1),
                                        part(3), part(5)])
                        dirichlet = rng.choice([0, 1])
                        neig = 1 if free else enough(rng.choice([1, 2]), m, dirichlet)
                        delay = [rng.choice([0, 0, 1, 4, 9]) for _ in
                                 range(rng.choice([3, 5, 7]))]
                        more = {"fast_ap": rng.random() < .8} \
                            if mode == "hierarchy" else {}
                        out.append(scenario(
                            dim, m, params("lanczos" if free else "lapack", neig, a,
                                           **more),
                            "free" if free else "matrix", mode=mode, same=True,
                            solvable=False, coef=rng.choice([1, 2]),
                            mass=rng.choice([1, 2]), dirichlet=dirichlet,
                            extra=20000 if free else 0, delay=delay,
                            threads=[1, 16, 2, 8, 5, 16]))
        return out
    joined(ctx, exe, "GalerkinTrace", "GalerkinTrace.cfg", make,
           (1, 2) if not ctx.thorough else (1, 2, 3), threads=16)
