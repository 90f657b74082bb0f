"""Lanczos on operators whose spectrum is known exactly."""
from vlib import *
from eig_common import *


def run(ctx):
    design("MC_Eigen", "MC_Eigen.cfg", ctx.work, ctx, ("Cycle", "Return"))
    if ctx.thorough:
        design("MC_Eigen", "MC_EigenDeep.cfg", ctx.work, ctx, ("Cycle", "Return"))
    exe = build("h_eig", ["h_eig.cc"], [], ctx.work)
    rng = ctx.rng
    progs = []          # (spectrum, [(event fields, harness scenario)])

    def one(sp, x, mode, want, tol, maxit=200, overshoot=0, per=None, cycles=1, mult=1,
            es=65536, vs=4096, vtol=0, deflated=None):
        params = {"num_eigenpairs": want, "max_iterations": maxit,
                  "tolerance": repr(tol * mult), "percent_overshoot": overshoot}
        if deflated or (deflated is None and (per is not None or cycles > 1)):
            params.update(is_deflated=True, num_cycles=cycles,
                          num_eigenpairs_per_cycle=per if per is not None else want)
        ev = {"x": x, "mode": mode, "want": want, "maxit": maxit, "cycles": cycles,
              "per": per if per is not None else want, "es": es, "vs": vs, "etol": 1,
              "vtol": vtol, "otol": 0}
        return ev, {"A": sp["A"], "scale": sp["s"], "mult": mult, "x": x, "es": es, "vs": vs,
                    "params": params}

    def start(n, zeros=0.3):
        x = [0 if rng.random() < zeros else rng.choice([1, 1, 2, -1, 3]) for _ in range(n)]
        x[rng.randrange(n)] = 1
        return x

    T = 6 if ctx.thorough else 1
    # the smallest reached
    for _ in range(160 * T):
        n = rng.randint(1, 12)
        sp = some(rng, n, 0, rng.choice([2, 6, 12]))
        x = start(n)
        d = len(reached(sp, x))
        k = rng.randint(1, d) if rng.random() < 0.8 else d + rng.randint(1, 2)
        progs.append((sp, [one(sp, x, "values", k, rng.choice([1e-7, 1e-10, 1e-12]),
                               overshoot=rng.choice([0, 5, 20, 50, 99]),
                               maxit=rng.choice([max(d, k), 200]),
                               mult=rng.choice([1, 1, 1e3, 1e-3, 1e6]))]))
    # negative eigenvalues as well
    for _ in range(20 * T):
        n = rng.randint(2, 10)
        sp = some(rng, n, -6, 6)
        x = start(n)
        progs.append((sp, [one(sp, x, "values", rng.randint(1, len(reached(sp, x))), 1e-10)]))
    # several cycles
    for _ in range(120 * T):
        n = rng.randint(2, 10)
        sp = some(rng, n, 0, rng.choice([1, 3, 5]))
        x = start(n)
        if not coordinates_apart(sp, x):
            x = [v or 1 for v in x]
        per, cyc = rng.randint(1, 3), rng.randint(1, 3)
        progs.append((sp, [one(sp, x, "values", rng.randint(1, per * cyc), 1e-10, per=per,
                               cycles=cyc, overshoot=rng.choice([0, 5, 30]), deflated=True)]))
    # a loose tolerance: pairs within it
    for _ in range(60 * T):
        n = rng.randint(2, 20)
        sp = some(rng, n, 0, 24)
        x = start(n, 0.1)
        tol = rng.choice([1e-1, 1e-2, 1e-3])
        k = rng.randint(1, min(3, len(reached(sp, x))))
        progs.append((sp, [one(sp, x, "loose", k, tol, es=4096, maxit=rng.choice([k, k + 2, 100]),
                               overshoot=rng.choice([0, 5, 50]), vtol=int(tol * 4096) + 2)]))
    # stopped early: all values of the projection, then the smallest of them
    for _ in range(60 * T):
        n = rng.randint(3, 7)
        sp = some(rng, n, 0, 7)
        x = start(n, 0.1)
        d = len(reached(sp, x))
        if d < 2:
            continue
        m = rng.randint(1, min(3, d - 1))
        progs.append((sp, [one(sp, x, "ritz", k, 0, maxit=m, es=4096, vs=2048,
                               overshoot=rng.choice([0, 20])) for k in range(m, 0, -1)]))
    # many steps: no copies of what was found already
    for _ in range(16 * T):
        n = rng.randint(25, 40)
        lams = [rng.randint(1, 5)] + rng.sample(range(300, 400), n - 1)
        rng.shuffle(lams)
        sp = diagonal(lams)
        progs.append((sp, [one(sp, start(n, 0), "values", rng.randint(1, 4), rng.choice([1e-6, 1e-9]),
                               overshoot=rng.choice([0, 5, 30]), mult=rng.choice([1, 1e3, 1e6, 1e-3]),
                               es=4096, vs=2048)]))
    # several cycles of many steps: what was found stays away
    for _ in range(16 * T):
        n = rng.randint(25, 40)
        lams = rng.sample(range(1, 8), 3) + rng.sample(range(300, 400), n - 3)
        rng.shuffle(lams)
        sp = diagonal(lams)
        progs.append((sp, [one(sp, start(n, 0), "values", 3, rng.choice([1e-5, 1e-7, 1e-9]),
                               per=2, cycles=2, overshoot=rng.choice([0, 50, 99]),
                               mult=rng.choice([1, 1e3, 1e-3]), es=4096, vs=2048, deflated=True)]))
    # the largest of the requested converges first
    for _ in range(16 * T):
        n = rng.randint(4, 12)
        lams = rng.sample(range(1, 30), n)
        sp = diagonal(lams)
        x = start(n, 0)
        x[lams.index(max(lams))] = 1000
        tol = rng.choice([1e-1, 1e-2])
        progs.append((sp, [one(sp, x, "loose", 2, tol, es=4096, vtol=int(tol * 4096) + 2,
                               overshoot=rng.choice([0, 5]))]))
    # the deflated operator on its own
    for _ in range(60 * T):
        n = rng.randint(2, 9)
        sp = some(rng, n, -4, 9)
        cols = list(range(n))
        rng.shuffle(cols)
        batches, seen = [], []
        for _b in range(rng.randint(1, 3)):
            k = rng.randint(1, 3)
            if len(cols) < k:
                break
            new, cols = cols[:k], cols[k:]
            # triangular: the vectors are independent, not orthogonal, of any length
            coef = []
            for q in range(k):
                c = [0] * n
                c[new[q]] = rng.choice([1, -1, 2])
                for j in new[:q] + seen:
                    c[j] = rng.randint(-2, 2)
                coef.append(c)
            rng.shuffle(coef)
            seen += new
            batches.append({"coef": coef, "x": [rng.randint(-3, 3) for _ in range(n)],
                            "vecs": [[sum(sp["Q"][i][j] * c[j] for j in range(n)) for i in range(n)]
                                     for c in coef]})
        ev = {"batches": batches, "vs": 4096, "mode": "deflated"}
        progs.append((sp, [(ev, {"A": sp["A"], "scale": sp["s"], "vs": 4096, "params": None,
                                 "x": [], "batches": batches})]))
    # requests that cannot be served
    for _ in range(3):
        n = rng.randint(3, 8)
        sp = diagonal(rng.sample(range(1, 20), n))
        x = start(n, 0)
        bad = [one(sp, x, "wrong", 3, 1e-8, maxit=2), one(sp, x, "wrong", 1, -1.0),
               one(sp, x, "wrong", 1, 1e-8, overshoot=100), one(sp, x, "wrong", 1, 1e-8, overshoot=-1),
               one(sp, x, "wrong", 3, 1e-8, per=1, cycles=2), one(sp, x, "wrong", 1, 1e-8, per=1, cycles=0),
               one(sp, x, "wrong", 1, 1e-8, per=0, cycles=2), one(sp, x, "wrong", n + 1, 1e-8),
               one(sp, [0] * n, "wrong", 1, 1e-8),
               one(sp, [1 if i == 1 else 0 for i in range(n)], "wrong", 2, 1e-8, per=1, cycles=2)]
        progs.append((sp, bad))

    scs, info = [], []
    for p, (sp, runs) in enumerate(progs):
        for q, (ev, sc) in enumerate(runs):
            sc["sc"] = "p%d-%d" % (p, q)
            scs.append(sc)
    res, crashed = run_isolated(exe, scs, ctx.work)

    def events(sp, runs, res):
        out = [{"ev": "Begin"}, dict(sp, ev="Spectrum")]
        for ev, sc in runs:
            r = res[sc["sc"]][0]
            out.append(dict(r[0], **ev) if r else {"ev": "Died", "mode": ev["mode"]})
        return out
    groups = []
    for p, (sp, runs) in enumerate(progs):
        g = {"sc": "p%d" % p, "key": json.dumps([sp, [r[1]["params"] for r in runs], runs[0][1]["x"], runs[0][1].get("batches")]),
             "prog": p}
        groups.append((g, events(sp, runs, res)))

    def rerun(g):
        sp, runs = progs[g["prog"]]
        r, _ = run_isolated(exe, [sc for _, sc in runs], ctx.work, tag="again")
        return events(sp, runs, r)
    conform(ctx, "EigenTrace", "EigenTrace.cfg", groups, rerun,
            describe=lambda g, e: "Lanczos: " + short({k: e[k] for k in e if k not in ("evecs", "batches")}, 300))
