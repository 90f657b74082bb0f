"""Parameter trees: generated trees (and histories of trees into one list) are
converted by the real function; TLC parses the texts itself and compares."""
from vlib import *

TOKENS = ["12", "-7", "+5", "0", "-0", "007", "2147483647", "-2147483648",
          "2147483648", "99999999999", " 12 ", "1.5", "-.5", "1.", "1e3",
          "-2.5e-1", "123456.789", "1.25E+2", "1e-10", "0.000000123", " 2.5",
          "0.1234567", "1e", "1.2.3", "e5", ".", "-", "+", "1 2", "0x10",
          "true", "false", " true ", "True", "TRUE", "tru", "truee", "yes",
          "inf", "nan", "", " ", "Chebyshev", "symmetric gauss-seidel", "MGV",
          "a<b", "a>b", "a&b", "a\"b", "it's", "&lt;", "&amp;amp;", "<x/>",
          "--", "  lead", "trail  ", "a  b", "{y}", "\\n", "%d", "#1", "a=b;",
          "ML", "1,2", "[3]", "a/b.c", "100%", "~", "`", "$x", "(1)"]
NAMES = ["type", "max levels", "smoother: type", "a", "b", "is preconditioner",
         "ML output", "x<y", "q&a", "\"quoted\"", "it's", "&gt;", "coarse: type",
         "p.q", "1", "-3", " padded ", "true", "n>m", "=", "sub list", "Z"]


def codes(s):
    return [ord(c) for c in s]


def tree(rng, depth, width):
    names = rng.sample(NAMES, width)
    out = []
    for n in names:
        if depth and rng.random() < 0.35:
            # text attached to an inner node has no place in the list
            v = rng.choice(["", "", "stray"])
            out.append({"n": codes(n), "v": codes(v),
                        "k": tree(rng, depth - 1, rng.randint(1, 4))})
        else:
            t = rng.choice(TOKENS) if rng.random() < .6 else number(rng)
            out.append({"n": codes(n), "v": codes(t), "k": []})
    return out


def number(rng):
    m = str(rng.randint(0, 10 ** rng.randint(1, 8)))
    s = rng.choice(["", "", "-", "+"])
    k = rng.randint(0, 3)
    if k == 1 and len(m) > 1:
        i = rng.randint(0, len(m))
        m = m[:i] + "." + m[i:]
    if k == 2:
        m += rng.choice(["e", "E"]) + rng.choice(["", "-", "+"]) + str(rng.randint(0, 4))
    return s + m


def run(ctx):
    design("MC_Ptree", "MC_Ptree.cfg", ctx.work, ctx, coverage=False)
    exe = build("h_utils", ["h_utils.cc"], ["common/utils.cc"], ctx.work)
    scs, rng = [], ctx.rng
    def add(trees, what):
        sc = {"sc": "t%d" % len(scs), "kind": "plist", "key": what,
              "trees": [{"n": [], "v": [], "k": t} for t in trees]}
        scs.append(sc)
    leaf = lambda n, v: {"n": codes(n), "v": codes(v), "k": []}
    for t in TOKENS:
        add([[leaf("p", t)]], "value %r" % t)
        add([[{"n": codes("sub"), "v": [], "k": [leaf("p", t), leaf("q", "1")]}]],
            "nested value %r" % t)
    for n in NAMES:
        add([[leaf(n, "1")]], "name %r" % n)
        add([[{"n": codes(n), "v": [], "k": [leaf("p", "1")]}]], "list name %r" % n)
    add([[]], "empty tree")
    for c in range(32, 127):
        add([[leaf("x" + chr(c) + "y", "u" + chr(c) + "v")]], "character %d" % c)
    for i in range(4000 if ctx.thorough else 400):
        add([tree(rng, rng.randint(0, 3), rng.randint(0, 5))
             for _ in range(rng.randint(1, 3))], "random tree %d" % i)
    res, crashed = run_isolated(exe, scs, ctx.work)
    def ev(sc, r):
        out = [{"ev": "Start"}]
        for i, t in enumerate(sc["trees"]):
            e = r[0][i] if i < len(r[0]) else {"ev": "Plist", "how": "died", "out": []}
            e = dict(e)
            e["tree"] = t["k"]
            out.append(e)
        return out
    groups = [(sc, ev(sc, res[sc["sc"]])) for sc in scs]
    def rerun(sc):
        r, _ = run_isolated(exe, [sc], ctx.work, tag="again")
        return ev(sc, r[sc["sc"]])
    conform(ctx, "PtreeTrace", "PtreeTrace.cfg", groups, rerun,
            describe=lambda sc, e: "tree not converted faithfully: " + sc["key"])
