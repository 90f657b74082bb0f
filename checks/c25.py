"""The eigenpairs of agglomerates whose matrices have known spectra."""
from vlib import *
from eig_common import *


def agglomerate(rng, sizes, spectrum, simple, ones=False):
    rx, ry = rng.choice(sizes)
    n = (rx + 1) * (ry + 1)
    nf = rng.choice([0, 0, 1, 2, n // 3])
    fixed = sorted(rng.sample(range(n), nf)) if nf < n - 1 else []
    free = [i for i in range(n) if i not in fixed]
    sp = spectrum(len(free))
    A = [[0] * n for _ in range(n)]
    Q = [[0] * n for _ in range(n)]
    D = [0] * n
    for i, p in enumerate(free):
        D[p] = sp["D"][i]
        for j, q in enumerate(free):
            A[p][q] = sp["A"][i][j]
            Q[p][q] = sp["Q"][i][j]
    for f in fixed:
        A[f][f] = D[f] = sp["s"] * (1 if ones else rng.choice([0, 1, 3]))
        Q[f][f] = 1
    ev = {"A": A, "s": sp["s"], "D": D, "Q": Q, "fixed": [f + 1 for f in fixed]}
    return ev, {"A": A, "scale": sp["s"], "fixed": fixed,
                "mesh": {"kind": "rect", "reps": [rx, ry], "distributed": 0}}


SMALL = [(1, 1), (2, 1), (3, 1), (2, 2), (3, 2)]
LARGE = [(3, 2), (3, 3), (4, 3)]


def run(ctx):
    design("MC_Local", "MC_Local.cfg", ctx.work, ctx, ("Assemble", "Shift", "Solve"))
    exe = build("h_local", ["h_local.cc"], LIB_SOURCES, ctx.work)
    rng = ctx.rng
    T = 6 if ctx.thorough else 1
    scs, progs = [], []

    def one(solver, free, want, count, spectrum, sizes, vtol=0, **params):
        ags = [agglomerate(rng, sizes, spectrum, True, ones=free) for _ in range(count)]
        # LOBPCG may loop forever where its blocks fill the space
        if solver == "anasazi":
            while any(3 * want + 3 > len(a[0]["A"]) - len(a[0]["fixed"]) for a in ags) and want > 1:
                want -= 1
            ags = [a for a in ags if 3 * want + 3 <= len(a[0]["A"]) - len(a[0]["fixed"])]
            if not ags:
                return
        kind = solver + ("-free" if solver == "anasazi" and free else "")
        cycles = params.get("num_cycles", 1)
        # The first agglomerate has no guess from others
        evs = [{"solver": kind + ("-guess" if q and params.get("use_initial_guess") else ""),
                "want": want, "es": 4096, "vs": 4096, "etol": 1, "vtol": vtol, "otol": 0,
                "cycles": cycles, "per": params.get("num_eigenpairs_per_cycle") or want,
                "fixed": a[0]["fixed"], "mode": "local"}
               for q, a in enumerate(ags)]
        sc = {"sc": "p%d" % len(scs), "free": int(free), "agglomerates": [a[1] for a in ags],
              "want": want, "tolerance": 1e-14, "es": 4096, "vs": 4096,
              "eigensolver": dict({"type": solver, "number of eigenvectors": want,
                                   "tolerance": 1e-8}, **params)}
        scs.append(sc)
        progs.append(([a[0] for a in ags], evs))

    def several(hi):
        return lambda n: some(rng, n, 0, hi)

    def different(hi):
        return lambda n: diagonal(rng.sample(range(max(hi, n) + 1), n))

    for _ in range(50 * T):
        one("lapack", 0, rng.randint(1, 4), rng.randint(1, 2), several(rng.choice([3, 10, 400])),
            SMALL + LARGE)
    for _ in range(35 * T):
        one("arpack", 0, rng.randint(1, 3), rng.randint(1, 2),
            rng.choice([several, different])(rng.choice([10, 400])), SMALL + LARGE)
    for _ in range(40 * T):
        one("lanczos", rng.randint(0, 1), rng.randint(1, 3), rng.randint(1, 2),
            several(rng.choice([3, 10, 40])), SMALL, vtol=8)
    for _ in range(20 * T):
        per, cyc = rng.randint(1, 2), rng.randint(1, 3)
        one("lanczos", rng.randint(0, 1), rng.randint(1, per * cyc), 1, several(rng.choice([2, 6])),
            SMALL, vtol=8, is_deflated="true", num_cycles=cyc, num_eigenpairs_per_cycle=per)
    for _ in range(25 * T):
        one("anasazi", 0, rng.randint(1, 3), rng.randint(1, 2),
            rng.choice([several, different])(rng.choice([10, 20, 300])), SMALL + LARGE)
    for _ in range(15 * T):
        one("anasazi", 1, rng.randint(1, 3), rng.randint(1, 2), different(20), LARGE)
    for _ in range(15 * T):
        one("anasazi", rng.randint(0, 1), rng.randint(1, 2), 3, rng.choice([several, different])(20), [(3, 2)],
            use_initial_guess="true")

    # matrix-free LOBPCG and constrained dofs: a finding (known_findings.jsonl)
    diag = [1, 1, 2] + list(range(4, 13))
    finding = "matrix-free anasazi, 2 eigenvectors, diagonal 1 1 2 4..12, first two dofs constrained"
    sp = dict(diagonal(diag), fixed=[1, 2])
    progs.append(([sp], [{"solver": "anasazi", "want": 2, "es": 4096, "vs": 4096, "etol": 1,
                          "vtol": 0, "otol": 0, "cycles": 1, "per": 2, "fixed": [1, 2],
                          "mode": "local"}]))
    scs.append({"sc": "finding", "free": 1, "want": 2, "tolerance": 1e-14, "es": 4096, "vs": 4096,
                "agglomerates": [{"A": sp["A"], "scale": 1, "fixed": [0, 1],
                                  "mesh": {"kind": "rect", "reps": [3, 2], "distributed": 0}}],
                "eigensolver": {"type": "anasazi", "number of eigenvectors": 2,
                                "tolerance": 1e-8}})

    def events(p, res):
        out = [{"ev": "Begin"}]
        for sp, ev, r in zip(progs[p][0], progs[p][1], res[scs[p]["sc"]][0]):
            out += [dict({k: sp[k] for k in "AsDQ"}, ev="Spectrum"), dict(r, **ev)]
        if len(res[scs[p]["sc"]][0]) < len(progs[p][1]):
            out.append({"ev": "Died", "mode": "local"})
        return out
    res, _ = run_isolated(exe, scs, ctx.work, timeout=200, single_timeout=30)
    groups = [({"sc": sc["sc"], "key": finding if sc["sc"] == "finding" else json.dumps([sc["free"], sc["want"], sc["eigensolver"],
                                                    sc["agglomerates"]]), "prog": p}, events(p, res))
              for p, sc in enumerate(scs)]

    def rerun(g):
        r, _ = run_isolated(exe, [scs[g["prog"]]], ctx.work, tag="again")
        return events(g["prog"], r)
    conform(ctx, "EigenTrace", "EigenTrace.cfg", groups, rerun,
            describe=lambda g, e: "agglomerate eigenpairs: "
            + short({k: e[k] for k in e if k not in ("evecs", "ids")}, 300))
