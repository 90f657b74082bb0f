"""Scenarios that run on several processors, every rank of which is one history."""
from vlib import *


def per_rank(ctx, exe, module, cfg, make, ranks, empty, timeout=250,
             threads=1, describe=None):
    """make(nranks) -> scenarios with a text 'what'.  empty: the first event of
    a rank that wrote nothing."""
    def split(s, recs, died):
        out = []
        for r in range(s["ranks"]):
            t = dict(s, rank=r, key="%s; %d ranks" % (s["what"], s["ranks"]))
            ev = list(recs[r])
            if not ev or ev[0]["ev"] != empty["ev"]:
                ev = [dict(empty)] + ev
            if died:
                ev.append({"ev": "Died"})
            out.append((t, ev))
        return out
    groups = []
    for n in ranks:
        scs = make(n)
        for i, s in enumerate(scs):
            s["sc"] = "n%d.%d" % (n, i)
            s["ranks"] = n
        res, crashed = run_isolated(exe, scs, ctx.work, ranks=n, timeout=timeout,
                                    threads=threads, single_timeout=60)
        for s in scs:
            groups += split(s, res[s["sc"]], s["sc"] in crashed)
    def rerun(sc):
        r, cr = run_isolated(exe, [{k: v for k, v in sc.items() if k != "rank"}],
                             ctx.work, ranks=sc["ranks"], tag="again",
                             threads=threads, timeout=90, single_timeout=60)
        for s, ev in split(sc, r[sc["sc"]], sc["sc"] in cr):
            if s["rank"] == sc["rank"]:
                return ev
    ctx.extra["histories"] = len(groups)
    conform(ctx, module, cfg, groups, rerun, timeout=800,
            describe=describe or (lambda sc, e: "%s: event %s of rank %d not allowed"
                                  % (sc["what"], e["ev"], sc["rank"])))


def join_ranks(s, recs, died):
    """The k-th records of all ranks become one event."""
    ev = [dict({"ev": "Begin"}, **s.get("begin", {}))]
    lens = {len(r) for r in recs}
    for k in range(max(lens) if lens else 0):
        rs = [r[k] for r in recs if k < len(r)]
        e = rs[0]["ev"]
        if len(rs) == len(recs) and all(x["ev"] == e for x in rs):
            ev.append({"ev": e, "ranks": rs})
        else:  # the processors did not do the same things
            ev.append({"ev": "Disagree", "ranks": rs})
            break
    if died:
        ev.append({"ev": "Died"})
    return (dict(s, key="%s; %d ranks" % (s["what"], s["ranks"])), ev)


def compared(ctx, exe, module, cfg, make, ranks, timeout=250, tag="p"):
    """Every scenario on one processor and then on several: one history."""
    def run(scs, n, t, isolated=1):
        for i, s in enumerate(scs):
            s["ranks"], s["sc"] = n, "n%d.%d" % (n, i)
        res, cr = run_isolated(exe, scs, ctx.work, ranks=n, timeout=timeout,
                               single_timeout=60, tag=t)
        return [join_ranks(s, res[s["sc"]], s["sc"] in cr) for s in scs]
    base = make()
    one = run([dict(s) for s in base], 1, tag)
    groups = []
    for n in ranks:
        for (_, e1), (s, e2) in zip(one, run([dict(s) for s in base], n, tag)):
            groups.append((s, e1 + e2[1:]))
    def rerun(sc):
        e1 = run([dict(sc)], 1, tag + "again")[0][1]
        return e1 + run([dict(sc)], sc["ranks"], tag + "again")[0][1][1:]
    ctx.extra["histories"] = ctx.extra.get("histories", 0) + len(groups)
    conform(ctx, module, cfg, groups, rerun, timeout=800,
            describe=lambda sc, e: "%s: event %s not allowed" % (sc["what"], e["ev"]))


def joined(ctx, exe, module, cfg, make, ranks, timeout=250, threads=1,
           describe=None, tag="h"):
    """Like per_rank, but the k-th records of all ranks become one event with a
    field ranks; a scenario's events follow a Begin event that carries the
    scenario's field 'begin'."""
    join = join_ranks
    groups = []
    for n in ranks:
        scs = make(n)
        for i, s in enumerate(scs):
            s["sc"] = "n%d.%d" % (n, i)
            s["ranks"] = n
        if not scs:
            continue
        res, crashed = run_isolated(exe, scs, ctx.work, ranks=n, timeout=timeout,
                                    threads=threads, single_timeout=60, tag=tag)
        for s in scs:
            groups.append(join(s, res[s["sc"]], s["sc"] in crashed))
    def rerun(sc):
        r, cr = run_isolated(exe, [sc], ctx.work, ranks=sc["ranks"],
                             tag=tag + "again", threads=threads, timeout=90,
                             single_timeout=60)
        return join(sc, r[sc["sc"]], sc["sc"] in cr)[1]
    ctx.extra["histories"] = ctx.extra.get("histories", 0) + len(groups)
    conform(ctx, module, cfg, groups, rerun, timeout=800,
            describe=describe or (lambda sc, e: "%s: event %s not allowed"
                                  % (sc["what"], e["ev"])))
    return groups
