"""Blocks of vectors: programs of calls over several blocks that may share vectors,
run on the real classes; TLC keeps the heap and compares every column of every
block after every call."""
import itertools
from vlib import *


class Maker:
    """writes a program, keeping track of the values so that they stay small, and of
    which vectors are shared"""

    def __init__(self, rng):
        self.rng, self.heap, self.blk, self.steps = rng, [], [], []

    def step(self, op, **k):
        k["op"] = op
        self.steps.append(k)

    def fresh(self, cols):
        self.blk.append(list(range(len(self.heap), len(self.heap) + len(cols))))
        self.heap += cols
        return len(self.blk)

    def cols(self, k):
        return [self.heap[p] for p in self.blk[k - 1]]

    def n(self, k):
        return len(self.blk[k - 1])

    def size(self, k):
        return len(self.heap[self.blk[k - 1][0]])

    def fill(self, k, m=9):
        for c in range(self.n(k)):
            for r in range(self.size(k)):
                self.poke(k, c + 1, r + 1, self.rng.randint(-m, m))

    def new(self, n, size):
        self.step("new", n=n, size=size)
        k = self.fresh([[0] * size for _ in range(n)])
        self.fill(k)
        return k

    def clone(self, of, n):
        self.step("clone", of=of, n=n)
        k = self.fresh([[0] * self.size(of) for _ in range(n)])
        self.fill(k)
        return k

    def poke(self, m, c, r, x):
        self.step("poke", m=m, c=c, r=r, x=x)
        self.heap[self.blk[m - 1][c - 1]][r - 1] = x

    def copy(self, of, ix, how):
        self.step("copy", of=of, ix=ix, how=how)
        return self.fresh([list(self.cols(of)[i - 1]) for i in ix])

    def view(self, of, ix, how):
        self.step("view", of=of, ix=ix, how=how)
        self.blk.append([self.blk[of - 1][i - 1] for i in ix])
        return len(self.blk)

    def small(self, m):
        """no large numbers"""
        big = max(abs(x) for c in self.cols(m) for x in c)
        if big > 300:
            self.init(m, self.rng.choice([0, 1, -2]))
            self.fill(m)

    def add(self, al, a, be, b, m):
        self.step("add", al=al, a=a, be=be, b=b, m=m)
        new = [[al * x + be * y for x, y in zip(u, v)] for u, v in zip(self.cols(a), self.cols(b))]
        for p, v in zip(self.blk[m - 1], new):
            self.heap[p] = v
        self.small(m)

    def times(self, al, a, B, be, m):
        self.step("times", al=al, a=a, B=B, be=be, m=m)
        A = self.cols(a)
        for j, p in enumerate(self.blk[m - 1]):
            self.heap[p] = [be * x + al * sum(B[k][j] * A[k][r] for k in range(len(A)))
                            for r, x in enumerate(self.heap[p])]
        self.small(m)

    def apply(self, M, a, m):
        self.step("apply", M=M, a=a, m=m)
        for u, p in zip(self.cols(a), self.blk[m - 1]):
            self.heap[p] = [sum(x * y for x, y in zip(row, u)) for row in M]
        self.small(m)

    def scale(self, m, al, how):
        self.step("scale", m=m, al=al, how=how)
        for p, x in zip(self.blk[m - 1], al):
            self.heap[p] = [x * y for y in self.heap[p]]
        self.small(m)

    def set(self, a, ix, m, how):
        self.step("set", a=a, ix=ix, m=m, how=how)
        new = [list(c) for c in self.cols(a)]
        for i, v in zip(ix, new):
            self.heap[self.blk[m - 1][i - 1]] = v

    def init(self, m, x):
        self.step("init", m=m, x=x)
        for p in self.blk[m - 1]:
            self.heap[p] = [x] * len(self.heap[p])

    def random(self, m):
        self.step("random", m=m)
        for p in self.blk[m - 1]:
            self.heap[p] = [16] * len(self.heap[p])

    # which calls are allowed
    def in_place(self, m, a):
        M, A = self.blk[m - 1], self.blk[a - 1]
        return all(M[i] != A[j] or i == j for i in range(len(M)) for j in range(len(A)))

    def apart(self, m, a):
        return not set(self.blk[m - 1]) & set(self.blk[a - 1])


def pattern_programs(rng):
    """every way three blocks of two columns can share the columns of one block of four"""
    out = []
    pairs = list(itertools.permutations(range(1, 5), 2))
    for op in ("add", "times", "set"):
        for a in pairs:
            mk = Maker(rng)
            mk.new(4, 3)
            va = mk.view(1, list(a), "index")
            views = {p: mk.view(1, list(p), "index") for p in pairs}
            for m in pairs:
                if op == "add":
                    for b in (pairs if True else ()):
                        if mk.in_place(views[m], va) and mk.in_place(views[m], views[b]):
                            mk.add(rng.choice([-1, 0, 1, 2]), va, rng.choice([-2, -1, 0, 1, 3]),
                                   views[b], views[m])
                elif op == "times":
                    if mk.apart(views[m], va):
                        B = [[rng.randint(-3, 3) for _ in range(2)] for _ in range(2)]
                        mk.times(rng.choice([-1, 1, 2]), va, B, rng.choice([0, 1, -2]), views[m])
                elif mk.in_place(views[m], va):
                    mk.set(va, [1, 2], views[m], rng.choice(["index", "range"]))
            out.append(mk.steps)
    return out


def random_program(rng, length):
    mk = Maker(rng)
    size = rng.choice([1, 2, 3, 5, 8])
    mk.new(rng.choice([1, 2, 3, 4]), size)
    mk.new(rng.choice([1, 2, 3, 5]), size)

    def indices(n):
        how = rng.choice(["index", "range", "index"])
        if how == "range":
            lo = rng.randint(1, n)
            return list(range(lo, rng.randint(lo, n) + 1)), how
        ix = rng.sample(range(1, n + 1), rng.randint(1, n))
        return ix, how

    def pick():
        return rng.randint(1, len(mk.blk))

    def matching(n, ok=lambda k: True):
        c = [k for k in range(1, len(mk.blk) + 1) if mk.n(k) == n and ok(k)]
        return rng.choice(c) if c else None

    done = 0
    while done < length:
        op = rng.choice(["copy", "view", "view", "clone", "new", "poke", "add", "add", "add", "times",
                         "times", "scale", "set", "set", "init", "random", "trans", "dot", "norm",
                         "size", "apply", "assign"])
        done += 1
        grow = len(mk.blk) < 9
        if op == "new" and grow and rng.random() < 0.3:
            mk.new(rng.randint(1, 4), size)
        elif op == "clone" and grow:
            mk.clone(pick(), rng.randint(1, 5))
        elif op == "copy" and grow:
            of = pick()
            ix, how = indices(mk.n(of))
            if rng.random() < 0.4:
                ix, how = list(range(1, mk.n(of) + 1)), "all"
            mk.copy(of, ix, how)
        elif op == "view" and grow:
            of = pick()
            ix, how = indices(mk.n(of))
            if rng.random() < 0.5:
                how = {"index": rng.choice(["all", "const"]), "range": "const range"}[how]
            mk.view(of, ix, how)
        elif op == "poke":
            m = pick()
            mk.poke(m, rng.randint(1, mk.n(m)), rng.randint(1, size), rng.randint(-50, 50))
        elif op == "add":
            a = pick()
            b = matching(mk.n(a))
            m = matching(mk.n(a), lambda k: mk.in_place(k, a) and mk.in_place(k, b))
            if m:
                mk.add(rng.choice([-2, -1, 0, 1, 1, 3]), a, rng.choice([-1, 0, 1, 1, 2]), b, m)
        elif op == "times":
            a = pick()
            c = [k for k in range(1, len(mk.blk) + 1) if mk.apart(k, a)]
            if c:
                m = rng.choice(c)
                mk.times(rng.choice([-1, 0, 1, 2]), a,
                         [[rng.randint(-3, 3) for _ in range(mk.n(m))] for _ in range(mk.n(a))],
                         rng.choice([-1, 0, 1, 2]), m)
        elif op == "scale":
            m = pick()
            if rng.random() < 0.5:
                mk.scale(m, [rng.choice([-1, 0, 2, 3])] * mk.n(m), "one")
            else:
                mk.scale(m, [rng.choice([-3, -1, 0, 1, 2]) for _ in range(mk.n(m))], "each")
        elif op == "set":
            m = pick()
            ix, how = indices(mk.n(m))
            a = matching(len(ix), lambda k: all(
                mk.blk[m - 1][ix[i] - 1] != p or i == j for i in range(len(ix))
                for j, p in enumerate(mk.blk[k - 1])))
            if a:
                mk.set(a, ix, m, how)
        elif op == "init":
            mk.init(pick(), rng.choice([0, 0, 1, -7]))
        elif op == "random":
            mk.random(pick())
        elif op in ("trans", "dot"):
            a = pick()
            b = pick() if op == "trans" else matching(mk.n(a))
            if op == "trans":
                mk.step("trans", al=rng.choice([-2, 0, 1, 1]), a=a, b=b)
            else:
                mk.step("dot", a=a, b=b, have=rng.choice([0, mk.n(a), mk.n(a) + 2]))
        elif op == "norm":
            m = pick()
            if max(sum(x * x for x in c) for c in mk.cols(m)) * 256 < 2 ** 30:
                mk.step("norm", m=m, have=rng.choice([0, mk.n(m), 1]))
        elif op == "size":
            mk.step("size", m=pick())
        elif op == "apply":
            a = pick()
            m = matching(mk.n(a), lambda k: mk.apart(k, a))
            if m:
                mk.apply([[rng.randint(-2, 2) for _ in range(size)] for _ in range(size)], a, m)
        elif op == "assign":
            a = pick()
            m = matching(mk.n(a))
            mk.step("assign", a=a, m=m)
    return mk.steps


def run(ctx):
    design("MC_MultiVec", "MC_MultiVec.cfg", ctx.work, ctx, ("Work",))
    exe = build("h_mvec", ["h_mvec.cc"], [], ctx.work)
    scs = []
    programs = pattern_programs(ctx.rng)
    for i in range(4000 if ctx.thorough else 500):
        programs.append(random_program(ctx.rng, ctx.rng.choice([8, 20, 40])))
    for p in programs:
        scs.append({"sc": "s%d" % len(scs), "key": json.dumps(p, sort_keys=True), "program": p})
    res, crashed = run_isolated(exe, scs, ctx.work)

    def ev(sc, r):
        return [{"ev": "Begin"}] + r[0] + ([{"ev": "Died"}] if sc["sc"] in died else [])
    died = set(crashed)
    groups = [(sc, ev(sc, res[sc["sc"]])) for sc in scs]

    def rerun(sc):
        r, c = run_isolated(exe, [sc], ctx.work, tag="again")
        died.discard(sc["sc"])
        died.update(c)
        return ev(sc, r[sc["sc"]])
    conform(ctx, "MultiVecTrace", "MultiVecTrace.cfg", groups, rerun,
            describe=lambda sc, e: "block of vectors: " + short({k: e[k] for k in e if k != "all"}, 300))
