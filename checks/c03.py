"""The same parameters give the same agglomerates whatever happened to the mesh
before: other agglomerations, indices left by the user, refinement."""
from agg_common import *

def run(ctx):
    design_model(ctx)
    def make(n):
        rng, out = ctx.rng, []
        us = uniform_meshes(ctx.thorough)
        ads = adaptive_meshes(ctx.thorough)
        def params(dim, uniform):
            if uniform and rng.random() < .6:
                return block(rng.randint(1, 4), rng.randint(1, 4), rng.randint(1, 3))
            return part(rng.choice([1, 2, 3, 5, 9]), rng.choice(["zoltan", "metis"]))
        def history(dim, m, uniform):
            small = m["refine"] <= 1 and not m.get("adapt") and m["kind"] != "ball"
            ops = []
            pool = [params(dim, uniform) for _ in range(2)]
            for _ in range(rng.randint(3, 6)):
                k = rng.random()
                if k < .2:
                    ops.append({"do": "garbage", "seed": rng.choice([1, 3, 7])})
                elif k < .35:
                    ops.append({"do": "renew"})
                elif k < .45 and small and dim == 2:
                    ops.append({"do": "refine"})
                    small = False
                elif k < .55 and ops and any(o["do"] == "agg" for o in ops) \
                        and ops[-1]["do"] == "agg":
                    ops.append({"do": "boundary"})
                p = rng.choice(pool)
                if rng.random() < .3:
                    p = params(dim, uniform)
                    pool.append(p)
                ops.append(agg(p, fresh=1))
            return ops
        for _ in range(6 if ctx.thorough else 1):
            for dim, m, _ in us:
                out.append({"dim": dim, "mesh": m, "ops": history(dim, m, True)})
            for dim, m, _ in ads:
                out.append({"dim": dim, "mesh": m, "ops": history(dim, m, False)})
        # the plain case: twice the same
        for p in (block(2, 2, 2), block(3, 1, 1), part(3), part(3, "metis")):
            for dim in (2, 3):
                out.append({"dim": dim, "mesh": mesh("cube", 2),
                            "ops": [agg(p, 1), agg(p), agg(p)]})
                out.append({"dim": dim, "mesh": mesh("cube", 2),
                            "ops": [{"do": "garbage"}, agg(p, 1), {"do": "renew"},
                                    agg(p)]})
        # meshes that are large enough for the graph partitioner to draw lots
        for dim, r in ((2, 4), (3, 2)) + (((2, 5), (3, 3)) if ctx.thorough else ()):
            for name in ("zoltan", "metis"):
                ps = [part(k, name) for k in rng.sample([2, 3, 5, 7, 10, 16, 30], 3)]
                out.append({"dim": dim, "mesh": mesh("cube", r),
                            "ops": [agg(p, 1) for p in ps] + [agg(p) for p in ps[::-1]]})
        for s in out:
            s["what"] = "%s: %s" % (label(s["dim"], s["mesh"]), " ".join(
                o["do"] + (o["key"] if o["do"] == "agg" else "") for o in s["ops"]))
        return out
    check(ctx, "history", make, (1, 3) if not ctx.thorough else (1, 2, 3, 5, 8))
