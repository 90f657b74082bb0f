"""Scenarios for the hierarchy: problems of small integer matrices, one per
level, with a sequence of applications; and the conversion of what the harness
recorded into one trace."""
import itertools
from vlib import *


def rmat(rng, n, m, vals):
    return [[rng.choice(vals) for _ in range(m)] for _ in range(n)]


def mul(a, b):
    return [[sum(x * y for x, y in zip(r, c)) for c in zip(*b)] for r in a]


def T(a):
    return [list(c) for c in zip(*a)]


def mv(a, x):
    return [sum(p * q for p, q in zip(r, x)) for r in a]


def magnitude(sc, L, ns, fast):
    """Rough bound on the numbers a run meets (only to keep them below 2^31:
    what is right is decided by the specification)."""
    big = 1
    ab = lambda m: [[abs(v) for v in r] for r in m]
    ops = [ab(sc["A"])]
    for i in range(L - 1):
        R = ab(sc["R"][i])
        ops.append(mul(R, ab(sc["P"][i]) if fast else mul(ops[-1], T(R))))
    def cyc(l, b, x):
        nonlocal big
        A = ops[l]
        def step(S, b, x):
            nonlocal big
            r = [p + q for p, q in zip(b, mv(A, x))]
            x = [p + q for p, q in zip(x, mv(ab(S), r))]
            big = max([big] + r + x)
            return x
        if l == L - 1:
            return step(sc["M"], b, x)
        for _ in range(ns):
            x = step(sc["S"][l], b, x)
        r = [p + q for p, q in zip(b, mv(A, x))]
        R = ab(sc["R"][l])
        xc = cyc(l + 1, mv(R, r), [0] * len(R))
        x = [p + q for p, q in zip(x, mv(T(R), xc))]
        for _ in range(ns):
            x = step(sc["S"][l], b, x)
        return x
    for c in sc["calls"]:
        cyc(0, [abs(v) for v in c["b"]], [abs(v) for v in c["x"]])
    return max([big] + [v for o in ops for r in o for v in r])


def problem(rng, name, L, ns, pre, fast, ncalls, timer, defaults):
    for attempt in range(400):
        small = attempt > 60
        tiny = attempt > 200
        dims = [1 if tiny else rng.choice([2, 3, 4] if not small else [2])]
        for _ in range(L - 1):
            dims.append(max(1, rng.choice([dims[-1], dims[-1] - 1])))
        vals = [-1, 0, 1] if small else [-2, -1, 0, 1, 1, 2]
        sc = {"sc": name, "timer": int(timer),
              "A": rmat(rng, dims[0], dims[0], vals),
              "R": [rmat(rng, dims[i + 1], dims[i], [-1, 0, 1, 1])
                    for i in range(L - 1)],
              "S": [rmat(rng, dims[i], dims[i], [-1, 0, 0, 1])
                    for i in range(L - 1)],
              "P": [rmat(rng, dims[i], dims[i + 1], vals) for i in range(L - 1)],
              "M": rmat(rng, dims[-1], dims[-1], [-1, 0, 1])}
        sc["calls"] = []
        for c in range(ncalls):
            x = [rng.choice([-2, 0, 1, 3]) for _ in range(dims[0])]
            b = [rng.choice([-1, 0, 1, 2]) for _ in range(dims[0])]
            if c == ncalls - 1:
                b = mv(sc["A"], x)        # the exact solution is passed in
            sc["calls"].append({"b": b, "x": x})
        if magnitude(sc, L, ns, fast) > 3e8:
            continue
        p = {}
        if not (defaults and L == 2):
            p["max levels"] = L
        if not (defaults and ns == 1):
            p["smoother.n_smoothing_steps"] = ns
        if not (defaults and pre):
            p["is preconditioner"] = pre
        if not (defaults and not fast):
            p["fast_ap"] = fast
        sc["params"] = p
        # the same problem in other units: everything is linear in the vectors
        sc["up"] = rng.choice([0, 0, -60, -200, 80])
        # the harness reads text: booleans as a user writes them
        sc["key"] = "cycle L=%d ns=%d pre=%s fast=%s" % (L, ns, pre, fast)
        return sc
    return None


def events(sc, recs):
    ev = [{"ev": "Prob", "sc": sc["sc"], "A": sc["A"], "R": sc["R"],
           "S": sc["S"], "M": sc["M"], "P": sc["P"], "params": sc["params"]}]
    body = recs[0]
    if not body or body[-1]["ev"] != "End":
        body = body + [{"ev": "End", "how": "died"}]
    return ev + body


def configurations(thorough):
    Ls = [1, 2, 3, 4] if not thorough else [1, 2, 3, 4, 5, 6]
    nss = [0, 1, 2, 3] if not thorough else [0, 1, 2, 3, 4, 5]
    return list(itertools.product(Ls, nss, [True, False], [True, False]))


def scenarios(ctx, per_config):
    out = []
    for (L, ns, pre, fast) in configurations(ctx.thorough):
        for k in range(per_config):
            name = "c%d.%d.%d.%d.%d" % (L, ns, pre, fast, k)
            sc = problem(ctx.rng, name, L, ns, pre, fast,
                         ncalls=3 if k == 0 else 2, timer=(k % 2),
                         defaults=(k == 0))
            if sc is None:
                continue
            out.append(sc)
    return out


def check(ctx, per_config):
    exe = build("h_cycle", ["h_cycle.cc"], [], ctx.work)
    scs = scenarios(ctx, per_config)
    res, crashed = run_isolated(exe, scs, ctx.work)
    groups = [(sc, events(sc, res[sc["sc"]])) for sc in scs]
    def rerun(sc):
        r, _ = run_isolated(exe, [sc], ctx.work, tag="again")
        return events(sc, r[sc["sc"]])
    conform(ctx, "VCycleTrace", "VCycleTrace.cfg", groups, rerun,
            describe=lambda sc, e: "event %s not allowed (%s)"
            % (e["ev"], sc["key"]))
    ctx.extra["scenarios"] = len(scs)
    return exe
