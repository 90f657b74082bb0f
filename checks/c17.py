"""Sorting permutations: every pair of short arrays over a small range and every
permutation of up to six (seven) positions is put through the real functions."""
import itertools
from vlib import *

def run(ctx):
    design("MC_Perm", "MC_Perm.cfg", ctx.work, ctx, ("Open", "Swap", "Close"))
    exe = build("h_utils", ["h_utils.cc"], ["common/utils.cc"], ctx.work)
    scs = []
    def add(**k):
        k["sc"] = "s%d" % len(scs)
        k["key"] = json.dumps({x: k[x] for x in k if x != "sc"}, sort_keys=True)
        scs.append(k)
    for n in range(0, 4):
        for v1 in itertools.product([-1, 0, 2], repeat=n):
            for v2 in itertools.product([-1, 0, 2], repeat=n):
                add(kind="sort", type="double", v1=v1, v2=v2)
    rng = ctx.rng
    for _ in range(3000 if ctx.thorough else 600):
        n = rng.choice([4, 5, 8, 17, 33])
        m = rng.choice([1, 2, 5, 1000])
        f = lambda: [rng.randint(-m, m) for _ in range(n)]
        add(kind="sort", type=rng.choice(["double", "int"]), v1=f(), v2=f())
    for n in range(0, 8 if ctx.thorough else 7):
        for p in itertools.permutations(range(n)):
            add(kind="apply", perm=p, v=[100 + 3 * i for i in range(n)])
    for _ in range(200):
        n = rng.choice([9, 20, 64])
        p = list(range(n)); rng.shuffle(p)
        add(kind="apply", perm=p, v=[rng.randint(-50, 50) for _ in range(n)])
    # long arrays, among them permutations that are one long cycle
    for n in [257, 300, 1000, 33000, 66000] + ([131100, 200000] if ctx.thorough else []):
        for style in ("shuffle", "rotate", "cycle"):
            p = list(range(n))
            if style == "shuffle":
                rng.shuffle(p)
            elif style == "rotate":
                p = p[1:] + p[:1]
            else:
                q = p[:]
                rng.shuffle(q)
                for a, b in zip(q, q[1:] + q[:1]):
                    p[a] = b
            add(kind="apply", perm=p, v=[rng.randint(-10 ** 6, 10 ** 6) for _ in range(n)])
        for m in (1, 10 ** 6):
            f = lambda: [rng.randint(-m, m) for _ in range(n)]
            add(kind="sort", type=rng.choice(["double", "int"]), v1=f(), v2=f())
    # a record of many scenarios per process run
    res, crashed = run_isolated(exe, scs, ctx.work)
    def ev(sc, r):
        return [{"ev": "Start"}] + (r[0] or [{"ev": "died"}])
    groups = [(sc, ev(sc, res[sc["sc"]])) for sc in scs]
    def rerun(sc):
        r, _ = run_isolated(exe, [sc], ctx.work, tag="again")
        return ev(sc, r[sc["sc"]])
    conform(ctx, "PermTrace", "PermTrace.cfg", groups, rerun,
            describe=lambda sc, e: "wrong permutation: " + short(e, 300))
