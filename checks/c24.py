"""Initial guesses and diagonals the evaluators hand out."""
from rank_common import *


def run(ctx):
    design("MC_Evaluator", "MC_Evaluator.cfg", ctx.work, ctx,
           ("Extract", "Import", "Return", "Again", "Guess"))
    exe = build("h_eval", ["h_eval.cc"], LIB_SOURCES, ctx.work)
    rng = ctx.rng
    T = 4 if ctx.thorough else 1

    def numbers():
        return [rng.choice([0, 1, -1, 2, 5, 1000, -70, 123456]) for _ in range(rng.randint(1, 31))]

    def make(n):
        out = []
        if n == 1:
            for _ in range(60 * T):
                gs = []
                for _ in range(rng.randint(2, 6)):
                    if gs and rng.random() < .5:
                        gs.append(dict(rng.choice(gs), garbage=rng.choice([0, -3, 7, 1e300]),
                                       free=rng.randint(0, 1)))
                        continue
                    m = rng.choice([1, 2, 3, 9, 27, 64, 200])
                    k = rng.choice([0, 0, 1, m // 3, m - 1, m])
                    fixed = sorted(rng.sample(range(m), k))
                    kind = rng.choice([0, 1, 2])
                    rest = [i for i in range(m) if i not in fixed]
                    gs.append({"n": m, "fixed": fixed, "kind": kind if rest or kind != 1 else 0,
                               "master": rng.choice(rest) if rest else 0,
                               "garbage": rng.choice([0, 1, -3, 1e300]), "free": rng.randint(0, 1)})
                out.append({"guesses": gs, "begin": {"rounds": []},
                            "what": "guesses %s" % json.dumps(gs)})
        meshes = [(2, {"kind": "cube", "refine": 2}), (2, {"kind": "cube", "refine": 0}),
                  (2, {"kind": "rect", "reps": [3, 1]}), (2, {"kind": "ball", "refine": 1}),
                  (2, {"kind": "cube", "refine": 1, "adapt": [.6]}), (2, {"kind": "cube", "refine": 3}),
                  (3, {"kind": "cube", "refine": 1}), (3, {"kind": "rect", "reps": [2, 1, 3]}),
                  (2, {"kind": "uneven", "n": 3})]
        for dim, m in meshes:
            for _ in range(T):
                rounds = [{"d": numbers()} for _ in range(rng.randint(1, 3))]
                deg = rng.choice([1, 1, 2])
                out.append({"dim": dim, "mesh": m, "degree": deg, "rounds": rounds,
                            "begin": {"rounds": rounds},
                            "what": "diagonal on %s, degree %d, %s" % (json.dumps(m), deg,
                                                                       json.dumps(rounds))})
        return out
    joined(ctx, exe, "EvaluatorTrace", "EvaluatorTrace.cfg", make,
           (1, 2, 3, 5, 7) if ctx.thorough else (1, 2, 3, 6))
