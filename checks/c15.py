"""Configurations and calls, supported or not."""
import os
from agg_common import mesh
from rank_common import *
from vlib import *


def setting(c):
    p = {}
    def put(key, v):
        if v not in ("absent", "nothing"):
            p[key] = v
    put("max levels", c["levels"])
    put("smoother.type", c["smoother"])
    put("coarse.type", c["coarse"])
    put("fast_ap", c["fast"])
    sections = []
    if c["eigensolver"] != "nothing":
        sections.append("eigensolver")
        put("eigensolver.type", c["eigensolver"])
        put("eigensolver.number of eigenvectors", c["count"])
        put("eigensolver.tolerance", c["tolerance"])
        d = c["deflation"]
        if d != "absent":
            p["eigensolver.is_deflated"] = "true"
            if d != "no cycles":
                p["eigensolver.num_cycles"] = "two" if d == "text" else "2"
            if d != "no pairs":
                p["eigensolver.num_eigenpairs_per_cycle"] = "1"
    if c["partitioner"] != "nothing":
        sections.append("agglomeration")
        put("agglomeration.partitioner", c["partitioner"])
        for k in ("nx", "ny", "nz"):
            put("agglomeration." + k, c[k])
        put("agglomeration.n_agglomerates", c["n"])
    dim = int(c["dim"])
    s = {"dim": dim, "mesh": mesh("cube", 2), "mass": 1, "coef": 2, "params": p,
         "sections": sections, "evaluator": c["evaluator"],
         "begin": {"what": "setup", "conf": c}}
    if c["params"] == "nothing":
        s["no params"] = 1
    s["what"] = "set-up of " + json.dumps(c, sort_keys=True)
    return s


def calling(on, what, dim):
    return {"dim": dim, "mesh": mesh("cube", 4 - dim), "mass": 1, "coef": 2, "on": on,
            "call": what, "begin": {"what": "call", "on": on, "call": what},
            "what": "call: %s: %s, %dD" % (on, what, dim)}


OPS = ("apply,apply transposed,transpose,times matrix,times free,times odd,"
       "times transposed matrix,times transposed free,times transposed odd,"
       "domain vector,range vector,grid complexity,operator complexity,smoother,"
       "free smoother,solver").split(",")
CALLS = [(a, o) for a in ("matrix", "free") for o in OPS] + [("serial", "times transposed")] \
    + [("evaluator", o) for o in ("global", "agglomerate", "diagonal")] \
    + [("free evaluator", o) for o in ("clone", "initialize", "agglomerate",
                                       "agglomerate diagonal", "global",
                                       "inverse diagonal", "diagonal")] \
    + [("helpers", "fast product")]


def run(ctx):
    cases = os.path.join(ctx.work, "cases.ndjson")
    design("MC_Config", "MC_Config.cfg", ctx.work, ctx, workers=8,
           envvars={"CASES": cases}, expect_actions=("Step", "Reject", "Finish"))
    if ctx.thorough:
        design("MC_Config", "MC_ConfigDeep.cfg", ctx.work, ctx, workers=8, coverage=False,
               envvars={"CASES": cases + ".deep"})
    space = [json.loads(l)["conf"] for l in open(cases)]
    base = {"matrix": "lapack", "free": "lanczos"}
    def far(c):
        """differences from the nearest start"""
        def d(ev):
            b = {"params": "given", "evaluator": ev, "levels": "absent", "smoother": "absent",
                 "coarse": "absent", "eigensolver": base[ev], "deflation": "absent",
                 "count": "1", "tolerance": "1e-10", "partitioner": "block", "nx": "2",
                 "ny": "2", "nz": "2", "n": "2", "fast": "absent"}
            return sum(c[k] != b[k] for k in b)
        return min(d("matrix"), d("free"))
    space.sort(key=lambda c: json.dumps(c, sort_keys=True))
    one = [c for c in space if far(c) <= 1]
    two = [c for c in space if far(c) == 2]
    deep = [json.loads(l)["conf"] for l in open(cases + ".deep")] if ctx.thorough else []
    ctx.extra["configurations"] = len(space)
    def make(n):
        flat = [c for c in two if c["dim"] == "2"]
        if n == 1:
            cs = one + ctx.rng.sample(two, min(len(two), 4000 if ctx.thorough else 450)) \
                + (ctx.rng.sample(deep, 3000) if deep else [])
            return [setting(c) for c in cs] + [calling(a, o, d) for a, o in CALLS for d in (2, 3)]
        return [setting(c) for c in ctx.rng.sample([c for c in one if c["dim"] == "2"], 50)
                + ctx.rng.sample(flat, 400 if ctx.thorough else 40)] \
            + [calling(a, o, 2) for a, o in CALLS]
    exe = build("h_config", ["h_config.cc"], LIB_SOURCES, ctx.work)
    joined(ctx, exe, "ConfigTrace", "ConfigTrace.cfg", make, (1, 2), timeout=600)
