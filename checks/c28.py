"""What a timer sees of hierarchies, and that they do not see it."""
from cycle_common import *

def run(ctx):
    design("MC_Timing", "MC_TimingDeep.cfg" if ctx.thorough else "MC_Timing.cfg",
           ctx.work, ctx, expect_actions=("Begin", "DoEnter", "DoLeave", "DoWork",
                                          "Fail", "Unwind", "Over"))
    exe = build("h_cycle", ["h_cycle.cc"], [], ctx.work)
    rng, scs = ctx.rng, []
    setup = ["Operator", "BuildS", "BuildR", "BuildFast", "MultiplyT", "Multiply", "BuildC"]
    for (L, ns, pre, fast) in configurations(ctx.thorough):
        for k in range(8 if ctx.thorough else 2):
            sc = problem(rng, "t%d.%d.%d.%d.%d" % (L, ns, pre, fast, k), L, ns, pre,
                         fast, 2, 1, False)
            if sc is None:
                continue
            sc["attempts"] = []
            for i in range(rng.randint(1, 4)):
                a = {}
                if rng.random() < .5:
                    a = {"at": rng.choice(setup), "after": rng.choice([0, 0, 1])}
                elif rng.random() < .5:
                    a = {"then": rng.choice(["S", "R", "A", "RT", "C"]),
                         "skip": rng.choice([0, 0, 1, 3])}
                elif rng.random() < .2:
                    a = {"levels": rng.choice([0, -1])}
                sc["attempts"].append(a)
            sc["key"] = "timing " + json.dumps(
                {k: v for k, v in sc.items() if k in ("params", "attempts")},
                sort_keys=True)
            scs.append(sc)
    def events(sc, r, died):
        return [{"ev": "Begin"}] + list(r[0]) + ([{"ev": "Died"}] if died else [])
    res, crashed = run_isolated(exe, scs, ctx.work)
    def rerun(sc):
        r, cr = run_isolated(exe, [sc], ctx.work, tag="again")
        return events(sc, r[sc["sc"]], sc["sc"] in cr)
    conform(ctx, "TimingTrace", "TimingTrace.cfg",
            [(sc, events(sc, res[sc["sc"]], sc["sc"] in crashed)) for sc in scs], rerun,
            describe=lambda sc, e: "%s: event %s not allowed" % (sc["key"], short(json.dumps(e), 300)))
    ctx.extra["scenarios"] = len(scs)
