"""Systems for smoothers and coarse solvers.  The arithmetic here only picks
systems on which every number comes out even; what a step has to give is the
specification's."""
from fractions import Fraction as F
from agg_common import mesh
from op_common import split
from rank_common import *

KINDS = {"jacobi": "Jacobi", "gauss-seidel": "Gauss-Seidel",
         "symmetric gauss-seidel": "Symmetric Gauss-Seidel", "ilu": "ILU"}


def scaled(rng, s, matrix=True):
    """The same system in other units: steps are linear, so nothing else changes."""
    s["xup"] = rng.choice([0, 0, 0, -60, -200, 80])
    s["aup"] = rng.choice([0, 0, 0, -50, 40]) if matrix else 0
    if rng.random() < .15:
        rng.choice(s["steps"])["b"] = [0] * len(s["steps"][0]["b"])
    return s


def case(rng, name):
    return rng.choice([name, name.lower(), name.upper(), name.swapcase()])


def blocks(space):
    out, k = [], 0
    for n in space:
        out.append(list(range(k, k + n)))
        k += n
    return out


def ilu(A, order):
    u = {}
    for i in order:
        row = {j: A[i][j] for j in order if A[i][j]}
        for k in order:
            if k < i and k in row:
                if u[k].get(k, 0) == 0 or row[k] % u[k][k]:
                    return None
                f = row[k] // u[k][k]
                for j in row:
                    if j > k and j in u[k]:
                        row[j] -= f * u[k][j]
                row[k] = f
        if row.get(i, 0) not in (1, -1, 2, -2, 4):
            return None
        u[i] = row
    return u


def even(kind, A, r, bl):
    """The correction, or nothing when it cannot be written in 2^-14."""
    y = [F(0)] * len(A)
    for order in bl:
        if kind == "jacobi":
            for i in order:
                y[i] = r[i] / A[i][i]
        elif kind == "ilu":
            u = ilu(A, order)
            if u is None:
                return None
            z = {}
            for i in order:
                z[i] = r[i] - sum(u[i][j] * z[j] for j in u[i] if j < i)
            for i in reversed(order):
                y[i] = (z[i] - sum(u[i][j] * y[j] for j in u[i] if j > i)) / u[i][i]
        else:
            for o in ([order] if kind == "gauss-seidel" else [order, order[::-1]]):
                for i in o:
                    y[i] = (r[i] - sum(A[i][j] * y[j] for j in order if j != i)) / A[i][i]
    if any((v * 8192).denominator != 1 or abs(v) > 20000 for v in y):
        return None
    return y


def matrix(rng, n, diag, off, density):
    return [[rng.choice(diag) if i == j else
             (rng.choice(off) if rng.random() < density else 0) for j in range(n)]
            for i in range(n)]


def entries(A):
    return [[i, j, v] for i, r in enumerate(A) for j, v in enumerate(r) if v or i == j]


def smoothing(rng, ranks, kind):
    while True:
        n = rng.randint(1, 6)
        space = split(rng, n, ranks)
        bl = blocks(space)
        A = matrix(rng, n, rng.choice([[1, -1, 2], [2, 4, 1], [1, -1], [4], [2, -2]]),
                   [-2, -1, -1, 1, 1, 2], rng.choice([.2, .5, .8]))
        steps, x = [], None
        for k in range(rng.randint(1, 4)):
            b = [rng.choice([-3, -1, 0, 1, 2, 4]) for _ in range(n)]
            on = x is not None and all(v.denominator == 1 for v in x) and rng.random() < .7
            if not on:
                x = [F(rng.choice([-4, -1, 0, 1, 3])) for _ in range(n)]
            if rng.random() < .25:  # the exact solution stays
                b = [int(sum(A[i][j] * x[j] for j in range(n))) for i in range(n)]
            r = [b[i] - sum(A[i][j] * x[j] for j in range(n)) for i in range(n)]
            c = even(kind, A, r, bl)
            if c is None:
                break
            steps.append({"b": b, "on": 1} if on else
                         {"b": b, "x": [int(v) for v in x]})
            x = [p + q for p, q in zip(x, c)]
            if any(abs(v) > 20000 for v in x):
                steps.pop()
                break
        if not steps:
            continue
        params = {}
        if kind != "symmetric gauss-seidel" or rng.random() < .6:
            params["smoother.type"] = case(rng, KINDS[kind])
        if rng.random() < .3:
            params["smoother.n_smoothing_steps"] = 3  # not the smoother's business
        s = {"space": space, "entries": entries(A), "steps": steps, "params": params,
             "begin": {"kind": kind}}
        s["xup"] = rng.choice([0, 0, 0, -60, -200, 80])
        s["aup"] = rng.choice([0, 0, 0, -50, 40])
        s["what"] = "%s: %s" % (kind, json.dumps(s, sort_keys=True))
        return s


def chebyshev(rng):
    m, n = rng.choice([(mesh("cube", 0), 4), (mesh("rect", 0, reps=[3, 1]), 8),
                       (mesh("rect", 0, reps=[4, 1]), 10)])
    e, d = [], rng.choice([2, 4, 8])
    for k in range(0, n, 2):
        e += [[k, k, d], [k + 1, k + 1, d], [k, k + 1, d // 2], [k + 1, k, d // 2]]
    params, degree, rg = {}, 1, 0
    if rng.random() < .7:
        params["smoother.type"] = case(rng, "Chebyshev")
    if rng.random() < .7:
        degree = params["smoother.degree"] = rng.choice([1, 2, 3, 4])
    if rng.random() < .7:
        rg = params["smoother.smoothing_range"] = rng.choice([0, 2, 3, 5, 10])
    steps = []
    for k in range(rng.randint(1, 4)):
        x = [rng.choice([-4, -1, 0, 1, 3]) for _ in range(n)]
        b = [rng.choice([-9, -3, -1, 0, 1, 2, 6]) for _ in range(n)]
        if rng.random() < .25:
            b = [0] * n
            for i, j, v in e:
                b[i] += v * x[j]
        steps.append({"b": b, "x": x})
    s = {"free": 1, "dim": 2, "mesh": m, "entries": e, "steps": steps, "params": params,
         "scale": 2048, "begin": {"kind": "chebyshev", "degree": degree, "range": rg}}
    scaled(rng, s, False)
    s["what"] = "chebyshev: " + json.dumps(s, sort_keys=True)
    return s


def det(A):
    A, d = [[F(v) for v in r] for r in A], F(1)
    for k in range(len(A)):
        p = next((i for i in range(k, len(A)) if A[i][k]), None)
        if p is None:
            return 0
        if p != k:
            A[k], A[p], d = A[p], A[k], -d
        d *= A[k][k]
        for i in range(k + 1, len(A)):
            f = A[i][k] / A[k][k]
            A[i] = [a - f * b for a, b in zip(A[i], A[k])]
    return d


def coarse(rng, ranks):
    while True:
        n = rng.randint(1, 9)
        A = matrix(rng, n, rng.choice([[1, 2, -3], [0, 1, 2], [5, 7], [100, 1]]),
                   [-2, -1, 1, 3], rng.choice([.2, .5, .8]))
        if det(A):
            break
    steps, wants = [], []
    for k in range(rng.randint(1, 4)):
        w = [rng.choice([-9, -2, 0, 1, 5]) if rng.random() < .9 else 0 for _ in range(n)]
        if rng.random() < .1:
            w = [0] * n
        wants.append(w)
        b = [sum(A[i][j] * w[j] for j in range(n)) for i in range(n)]
        steps.append({"b": b, "on": 0, "x": [rng.choice([-4, 0, 3]) for _ in range(n)]})
    params, kind = {}, "direct"
    if rng.random() < .6:
        params["coarse.type"] = case(rng, "direct")
    s = {"solver": 1, "space": split(rng, n, ranks), "entries": entries(A), "steps": steps,
         "params": params, "begin": {"kind": kind, "wants": wants}}
    s["xup"] = rng.choice([0, 0, 0, -60, -200, 80])
    s["aup"] = rng.choice([0, 0, 0, -50, 40])
    s["what"] = "coarse: " + json.dumps(s, sort_keys=True)
    return s


def coarse_ml(rng, ranks):
    n = rng.randint(2, 8)
    A = matrix(rng, n, [8, 16], [-1, 1], .4)
    steps = [{"b": [rng.choice([-9, -2, 0, 1, 5]) for _ in range(n)],
              "x": [rng.choice([-4, 0, 3]) for _ in range(n)]} for _ in range(3)]
    params = {"coarse.type": case(rng, "ml"), "coarse.params.max levels": 1,
              "coarse.params.coarse: type": "Jacobi", "coarse.params.coarse: sweeps": 1,
              "coarse.params.coarse: damping factor": 0.5,
              "coarse.params.coarse: pre or post": "post",
              "coarse.params.ML output": 0}
    s = {"solver": 1, "space": split(rng, n, ranks), "entries": entries(A), "steps": steps,
         "params": params, "begin": {"kind": "ml jacobi"}}
    scaled(rng, s, False)
    s["what"] = "coarse ml: " + json.dumps(s, sort_keys=True)
    return s


def check(ctx, make_one, count):
    exe = build("h_smooth", ["h_smooth.cc"], LIB_SOURCES, ctx.work)
    def make(n):
        return [make_one(ctx.rng, n, i) for i in range(count)]
    joined(ctx, exe, "SmootherTrace", "SmootherTrace.cfg", make,
           (1, 2, 3) if not ctx.thorough else (1, 2, 3, 4, 6))
