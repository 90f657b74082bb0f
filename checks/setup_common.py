"""Scenarios for the set-up of restrictors and hierarchies by the real library."""
from agg_common import mesh, label, block, part
from rank_common import *

SETUP_LIBS = LIB_SOURCES


def build_setup(ctx):
    return build("h_setup", ["h_setup.cc"], SETUP_LIBS, ctx.work)


def params(eig, neig, agg, **more):
    p = {"eigensolver.type": eig, "eigensolver.number of eigenvectors": neig}
    p.update({"agglomeration." + k: v for k, v in agg.items()})
    p.update(more)
    return {k: (str(v).lower() if isinstance(v, bool) else v) for k, v in p.items()}


def enough(neig, m, dirichlet):
    """No more eigenvectors than an agglomerate has unconstrained dofs."""
    if not dirichlet:
        return neig
    return min(neig, 1 if dirichlet == 2 or m["kind"] in ("ell", "ball") else 2)


def scenario(dim, m, prm, evaluator="matrix", mode="hierarchy", extra=0,
             same=False, solvable=True, coef=0, mass=0, dirichlet=0, **kw):
    s = {"dim": dim, "mesh": m, "params": prm, "evaluator": evaluator,
         "mode": mode, "coef": coef, "mass": mass, "dirichlet": dirichlet}
    s.update(kw)
    fast = prm.get("fast_ap", "false") == "true"
    s["begin"] = {"levels": int(prm.get("max levels", 2)), "fast": fast,
                  "extra": extra, "same": same, "solvable": solvable,
                  "neig": int(prm.get("eigensolver.number of eigenvectors", 1))}
    s["what"] = "%s, %s %s, coefficient %d, mass %d, boundary %d, %s%s" % (
        label(dim, m), evaluator, mode, coef, mass, dirichlet,
        json.dumps(prm, sort_keys=True),
        "".join(", %s %s" % (k, kw[k]) for k in sorted(kw)))
    return s


def product_model(ctx):
    """The pipeline of workers that the set-up runs, in every interleaving."""
    for cfg in ["MC_FastProduct.cfg"] + (["MC_FastProductWide.cfg"] if ctx.thorough else []):
        design("MC_FastProduct", cfg, ctx.work, ctx, workers=8,
               expect_actions=("Hand", "Work", "Copy", "Turn"))
    design("MC_FastProduct", "MC_FastProductLive.cfg", ctx.work, ctx, workers=8,
           coverage=False)
