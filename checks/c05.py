"""Patches: cells, vertices, faces and degrees of freedom of the triangulation
built for an agglomerate or a list of cells, against the mesh they come from."""
from agg_common import *
from rank_common import per_rank

def run(ctx):
    design("MC_Patch", "MC_Patch.cfg", ctx.work, ctx, workers=8,
           expect_actions=("CopyAny", "Glue", "Number", "Map"))
    exe = build("h_patch", ["h_patch.cc"], ["common/amge.cc"], ctx.work)
    def make(n):
        rng, out = ctx.rng, []
        for dim, m, _ in uniform_meshes(ctx.thorough):
            big = (dim == 3 and m["refine"] >= 1 and m["kind"] != "cube"
                   and m.get("reps") is None) or (dim == 2 and m["refine"] == 3) \
                or (dim == 3 and m["refine"] >= 2)
            if big and not ctx.thorough:
                continue
            for _ in range(3 if ctx.thorough else 1):
                p = rng.choice([block(1, 1, 1), block(2, 2, 2), block(3, 1, 2),
                                block(1, 4, 1), block(50, 50, 50), part(2), part(3),
                                part(4, "metis"), part(1)])
                deg = rng.choice([1, 1, 2, 3]) if dim == 2 else \
                    rng.choice([1, 1, 2] + ([3] if ctx.thorough else []))
                bids = rng.choice([0, 3, 6])
                mm = dict(m)
                if m["kind"] == "rect" and rng.random() < .5:
                    mm["colorize"], bids = 1, 0
                out.append({"dim": dim, "mesh": mm, "params": p, "degree": deg,
                            "bids": bids, "step": rng.choice([2, 3, 5]),
                            "bend": int(m["kind"] in ("rect", "cube")
                                        and rng.random() < .5)})
                out[-1]["what"] = "%s, %s, FE_Q(%d), boundary ids %d, every %d%s" % (
                    label(dim, mm), json.dumps(p, sort_keys=True), deg, bids,
                    out[-1]["step"], ", bent" if out[-1]["bend"] else "")
        return out
    per_rank(ctx, exe, "PatchTrace", "PatchTrace.cfg", make,
             (1, 3) if not ctx.thorough else (1, 2, 3, 5, 8),
             {"ev": "Mesh", "cells": [], "agg": [], "n": 0})
