"""Meshes and histories of agglomeration for C01-C04 and C23."""
from vlib import *


def mesh(kind, refine, adapt=(), **kw):
    m = dict(kind=kind, refine=refine, **kw)
    if adapt:
        m["adapt"] = list(adapt)
    return m


def label(dim, m):
    return "%dD %s" % (dim, " ".join("%s=%s" % (k, m[k]) for k in sorted(m)))


def block(nx, ny, nz=1, name="block"):
    return {"partitioner": name, "nx": nx, "ny": ny, "nz": nz}


def part(n, kind="zoltan"):
    return {"partitioner": kind, "n_agglomerates": n}


def agg(p, fresh=0):
    return {"do": "agg", "params": p, "key": json.dumps(p, sort_keys=True),
            "fresh": fresh}


def uniform_meshes(thorough):
    out = []
    for r in (0, 1, 2, 3) + ((4,) if thorough else ()):
        out.append((2, mesh("cube", r), r))
    for r in (0, 1, 2):
        out.append((3, mesh("cube", r), r))
    for reps in ([3, 2], [5, 4], [1, 7], [6, 1], [7, 5]):
        out.append((2, mesh("rect", 0, reps=reps), 1))
        out.append((2, mesh("rect", 1, reps=reps), 1))
    for reps in ([3, 2, 2], [2, 1, 5], [1, 4, 3], [4, 3, 2]):
        out.append((3, mesh("rect", 0, reps=reps), 1))
    for kind, kw in (("ell", {}), ("ball", {}), ("cross", {}), ("cheese", {}),
                     ("two", {}), ("shell", {"n": 4}), ("shell", {"n": 7}),
                     ("cross", {"n": 2})):
        for r in (0, 1) + ((2,) if thorough else ()):
            out.append((2, mesh(kind, r, **kw), 0))
    for kind in ("ell", "ball", "two", "cheese"):
        out.append((3, mesh(kind, 0), 0))
        if kind != "cheese":
            out.append((3, mesh(kind, 1), 0))
    return out


def adaptive_meshes(thorough):
    out = []
    for dim in (2, 3):
        for r, a in ((1, [.6]), (1, [.6, .3]), (2, [.5]), (1, [.6, .3, .2])):
            if dim == 3 and (r == 2 or len(a) == 3) and not thorough:
                continue
            out.append((dim, mesh("cube", r, a), 0))
    out.append((2, mesh("ell", 1, [.1, -.4]), 0))
    out.append((2, mesh("rect", 0, [2.1, 1.1], reps=[3, 3]), 0))
    out.append((2, mesh("ball", 0, [.3]), 0))
    return out


def check(ctx, want, make, ranks):
    """make(nranks) -> scenarios; every rank of a scenario is one history."""
    exe = build("h_agg", ["h_agg.cc"], ["common/amge.cc"], ctx.work)
    def split(s, recs, died):
        out = []
        for r in range(s["ranks"]):
            t = dict(s, rank=r, key="%s; %d ranks" % (s["what"], s["ranks"]))
            ev = list(recs[r])
            if not ev or ev[0]["ev"] != "Mesh":
                ev = [{"ev": "Mesh", "dim": 2, "own": [], "fwd": [], "verts": [],
                       "pos": [], "lattice": 0}] + ev
            if died:
                ev.append({"ev": "Died"})
            out.append((t, ev))
        return out
    groups = []
    for n in ranks:
        scs = make(n)
        for i, s in enumerate(scs):
            s["sc"] = "n%d.%d" % (n, i)
            s["ranks"] = n
        res, crashed = run_isolated(exe, scs, ctx.work, ranks=n, timeout=200,
                                    single_timeout=30)
        for s in scs:
            groups += split(s, res[s["sc"]], s["sc"] in crashed)
    def rerun(sc):
        r, cr = run_isolated(exe, [{k: v for k, v in sc.items() if k != "rank"}],
                             ctx.work, ranks=sc["ranks"], tag="again",
                             timeout=60, single_timeout=30)
        for s, ev in split(sc, r[sc["sc"]], sc["sc"] in cr):
            if s["rank"] == sc["rank"]:
                return ev
    ctx.extra["histories"] = len(groups)
    conform(ctx, "AggTrace", "AggTrace_%s.cfg" % want, groups, rerun,
            describe=lambda sc, e: "%s: event %s of rank %d not allowed"
            % (sc["what"], e["ev"], sc["rank"]))


def design_model(ctx):
    design("MC_Agglomerate", "MC_Agglomerate.cfg", ctx.work, ctx, workers=8,
           expect_actions=("Clear", "Grow"), coverage=True)
    design("MC_Agglomerate", "MC_AgglomerateLive.cfg", ctx.work, ctx, workers=8,
           coverage=False)
