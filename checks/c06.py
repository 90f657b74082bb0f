"""The restriction matrix (and its companions) entry by entry, rows by processor."""
from agg_common import mesh, label
from rank_common import *

def run(ctx):
    design("MC_Restriction", "MC_Restriction.cfg", ctx.work, ctx, workers=8,
           expect_actions=("TellAny", "KnowAny", "AddAny"))
    exe = build("h_restrict", ["h_restrict.cc"], ["common/amge.cc"], ctx.work)
    def make(n):
        rng, out = ctx.rng, []
        ms = [(2, mesh("cube", 0)), (2, mesh("cube", 1)), (2, mesh("cube", 2)),
              (2, mesh("rect", 0, reps=[3, 2])), (2, mesh("ball", 0)),
              (3, mesh("cube", 0)), (3, mesh("cube", 1)), (2, mesh("two", 0)),
              (2, mesh("cube", 1, [.6]))]
        for i in range(150 if ctx.thorough else 40):
            dim, m = rng.choice(ms)
            s = {"dim": dim, "mesh": m, "seed": rng.randint(1, 10**6),
                 "degree": rng.choice([1, 1, 2]),
                 "max_agg": rng.choice([1, 2, 4, 7]), "max_eig": rng.choice([1, 2, 4]),
                 "max_dofs": rng.choice([2, 9, 30]), "same_number": rng.choice([0, 1]),
                 "wide": i % 2,
                 "again": rng.choice([0, 0, 1]),
                 "only_rank": rng.choice([-1, -1, -1, 0, n - 1])}
            s["what"] = " ".join("%s=%s" % (k, s[k]) for k in sorted(s) if k != "mesh")
            s["what"] = label(dim, m) + " " + s["what"]
            out.append(s)
        return out
    joined(ctx, exe, "RestrictionTrace", "RestrictionTrace.cfg", make,
           (1, 2, 3, 4) if not ctx.thorough else (1, 2, 3, 4, 5, 8))
