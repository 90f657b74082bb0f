"""Matrices and vectors written to files."""
from op_common import split, entries
from rank_common import *

def run(ctx):
    design("MC_MatrixMarket", "MC_MatrixMarketDeep.cfg" if ctx.thorough
           else "MC_MatrixMarket.cfg", ctx.work, ctx,
           expect_actions=("DoOpen", "DoGather", "DoClose"))
    exe = build("h_mm", ["h_mm.cc"], LIB_SOURCES, ctx.work)
    def make(n):
        rng, out = ctx.rng, []
        for k in range(150 if ctx.thorough else 25):
            prog = []
            for i in range(rng.randint(1, 5)):
                op = rng.choice(["matrix", "matrix", "vector"]
                                + (["serial"] * 2 if n == 1 else []))
                big = rng.random() < .3
                m, c = rng.randint(1, 60 if big else 7), rng.randint(1, 60 if big else 7)
                if op == "serial" and rng.random() < .5:
                    c = m
                vals = [-3, -1, 0, 1, 2, rng.randrange(1 << 30), -rng.randrange(1 << 30)]
                if op == "vector":
                    c = 1
                    e = [[i, 0, rng.choice(vals)] for i in range(m)]
                else:
                    e = entries(rng, m, c, vals, rng.choice([.1, .3, .8]))
                prog.append({"op": op, "name": rng.choice("abc"), "entries": e,
                             "rs": split(rng, m, n), "cs": split(rng, c, n),
                             # deal.II drops tiny entries of serial matrices
                             "e": rng.choice([0, 7, 30] if op == "serial"
                                             else [0, 0, 7, 60, -40, 200])})
            s = {"dir": str(ctx.work), "program": prog}
            s["what"] = "output: " + short(json.dumps(prog), 400)
            out.append(s)
        return out
    joined(ctx, exe, "MatrixMarketTrace", "MatrixMarketTrace.cfg", make,
           (1, 2, 3) if not ctx.thorough else (1, 2, 3, 5, 8))
