"""Programs of operator calls."""
from agg_common import mesh
from rank_common import *

OP_LIBS = LIB_SOURCES


def split(rng, n, ranks):
    """n indices over the processors, some of which may get none."""
    style = rng.random()
    if style < .25:
        s = [0] * ranks
        s[rng.randrange(ranks)] = n
        return s
    s = [0] * ranks
    for _ in range(n):
        s[rng.randrange(ranks)] += 1
    return s


def entries(rng, rows, cols, vals, density):
    out = []
    empty_r = rng.randrange(rows) if rng.random() < .4 else -1
    empty_c = rng.randrange(cols) if rng.random() < .4 else -1
    for i in range(rows):
        for j in range(cols):
            if i != empty_r and j != empty_c and rng.random() < density:
                out.append([i, j, rng.choice(vals)])
    return out


class Program:
    """Keeps track of shapes and of a bound on the values (not of the values:
    those are the specification's)."""
    def __init__(self, rng, ranks, dims, m=None, mesh_size=0):
        self.rng, self.steps, self.heap = rng, [], []
        self.dims = ([mesh_size] if m else []) + dims
        self.s = {"spaces": [split(rng, n, ranks) for n in dims], "program": self.steps}
        if m:
            self.s.update(dim=2, mesh=m)

    def make(self, r, c, tiny=False):
        rng = self.rng
        vals = [-3, -2, -1, 0, 1, 2, 3] if not tiny else [-4, -3, -2, -1, 1, 2, 3, 5]
        e = entries(rng, self.dims[r], self.dims[c], vals,
                    rng.choice([.15, .4, .8] if self.dims[r] < 12 else [.08, .2]))
        self.steps.append({"op": "make", "r": r, "c": c, "entries": e,
                           "e": 48 if tiny else 0})
        self.heap.append(dict(r=r, c=c, big=5, tiny=tiny, free=False))
        return len(self.heap) - 1

    def derived(self, op, j, k, r, c, big, tiny, free=False):
        self.steps.append({"op": op, "j": j, "k": k})
        self.heap.append(dict(r=r, c=c, big=big, tiny=tiny, free=free))

    def step(self, ops):
        """One random call that has a meaning; False when there is none."""
        rng, h = self.rng, self.heap
        op = rng.choice(ops)
        j = rng.randrange(len(h))
        A = h[j]
        d = self.dims
        fits = lambda B, n: A["big"] * B["big"] * n < 3e8 and not (A["tiny"] and B["tiny"])
        if op == "apply":
            t = 0 if A["free"] else rng.choice([0, 1])
            xs, ys = (A["r"], A["c"]) if t else (A["c"], A["r"])
            if A["big"] * 4 * d[xs] > 1e9:
                return False
            self.steps.append({"op": op, "j": j, "t": t, "xs": xs, "ys": ys,
                               "built": rng.choice([0, 1]),
                               "x": [rng.choice([-3, -1, 0, 1, 2, 4]) for _ in range(d[xs])]})
            return True
        if op == "vectors":
            self.steps.append({"op": op, "j": j})
            return True
        if op == "serial":
            m, n = rng.randint(1, 6), rng.randint(1, 6)
            t = rng.choice([0, 1])
            self.steps.append({"op": op, "m": m, "n": n, "t": t,
                               "entries": entries(rng, m, n, [-2, -1, 0, 1, 3], .5),
                               "x": [rng.choice([-3, 0, 1, 2]) for _ in range(m if t else n)]})
            return True
        if op == "free":
            if A["free"] or A["r"] != 0 or A["c"] != 0 or "mesh" not in self.s:
                return False
            self.derived(op, j, 0, 0, 0, A["big"], A["tiny"], True)
            return True
        if op == "row":
            if A["free"] or d[A["r"]] == 0:
                return False
            self.steps.append({"op": op, "j": j, "row": rng.randrange(d[A["r"]])})
            return True
        if op == "transpose":
            if A["free"]:
                return False
            self.derived(op, j, 0, A["c"], A["r"], A["big"], A["tiny"])
            return True
        if op in ("multiply", "multiply_transpose", "product"):
            want = (lambda B: B["r"]) if op == "multiply" else (lambda B: B["c"])
            ks = [k for k, B in enumerate(h) if not B["free"] and want(B) == A["c"]
                  and fits(B, d[A["c"]])]
            if not ks or (A["free"] and op != "multiply_transpose"):
                return False
            k = rng.choice(ks)
            B = h[k]
            self.derived(op, j, k, A["r"], B["c"] if op == "multiply" else B["r"],
                         A["big"] * B["big"] * d[A["c"]], A["tiny"] or B["tiny"])
            return True


def program(rng, ranks, ops, length, name, tiny=0., m=None, mesh_size=0):
    n = rng.randint(1, 3)
    p = Program(rng, ranks, [rng.randint(1, 7) for _ in range(n)], m, mesh_size)
    for _ in range(rng.randint(1, 3)):
        p.make(rng.randrange(len(p.dims)), rng.randrange(len(p.dims)),
               rng.random() < tiny)
    if m:
        p.make(0, 0, rng.random() < tiny)
        p.step(["free"])
        while not p.heap[-1]["free"]:
            p.step(["free"])
        p.make(rng.randrange(len(p.dims)), 0, False)
    while len(p.steps) < length:
        if len(p.heap) > 6:
            break
        p.step(ops)
    p.s["up"] = rng.choice([0, 0, -60, -200, 80])
    p.s["what"] = "%s: %s" % (name, json.dumps(p.s, sort_keys=True))
    return p.s


def check(ctx, ops, name, tiny, free, count):
    exe = build("h_op", ["h_op.cc"], OP_LIBS, ctx.work)
    meshes = [(mesh("cube", 0), 4), (mesh("cube", 1), 9), (mesh("rect", 0, reps=[3, 1]), 8)]
    def make(n):
        out = []
        for _ in range(count):
            m, size = ctx.rng.choice(meshes) if ctx.rng.random() < free else (None, 0)
            out.append(program(ctx.rng, n, ops, ctx.rng.randint(4, 10), name, tiny, m, size))
        return out
    joined(ctx, exe, "OpAlgTrace", "OpAlgTrace.cfg", make,
           (1, 2, 3) if not ctx.thorough else (1, 2, 3, 4, 6), describe=lambda sc, e:
           "%s: call %s not allowed" % (sc["what"][:600], json.dumps(
               {k: v for k, v in e["ranks"][0].items() if k != "heap"})[:400]
               if "ranks" in e else e["ev"]))
