"""Writing the agglomerates: the record lists every processor's piece."""
from agg_common import *

def run(ctx):
    design_model(ctx)
    def make(n):
        out = []
        for dim, m in ((2, mesh("cube", 2)), (3, mesh("cube", 1)), (2, mesh("cube", 0)),
                       (2, mesh("ell", 1)), (2, mesh("rect", 0, reps=[3, 2]))):
            for p, nm in ((block(2, 2, 1), "agg"), (part(2), "a.b-")):
                out.append({"dim": dim, "mesh": m, "ops": [
                    agg(p), {"do": "output", "name": nm}],
                    "what": "%s output" % label(dim, m)})
                out.append({"dim": dim, "mesh": m, "ops": [
                    {"do": "output", "name": nm}, agg(p), {"do": "output", "name": nm}],
                    "what": "%s output before and after" % label(dim, m)})
        return out
    check(ctx, "output", make, (1, 2, 3, 5) if not ctx.thorough else range(1, 9))
