import random

import plcommon as C
import vf

LEVEL = "model_checking"
CL = {"worker starts inputs while writing lags behind",
      "combiner stopped before the results were drained",
      "writer stopped before everything was written", "run does not terminate",
      "results left in the queues", "successful counter wrong", "total counter wrong",
      "the run ends with an error", "counters out of range"}


def run(ctx):
    m = [dict(N=3, NW=2, NC=1, NR=1, Chunk=2, Cache=1, Kinds=["ok", "fail"], FailAts=[0, 1, 2], CanStop=True),
         dict(N=2, NW=2, NC=1, NR=2, Chunk=1, Cache=1, Kinds=["ok", "bad"], FailAts=[0, 1, 2], CanStop=True)]
    if ctx.thorough:
        m += [dict(N=3, NW=2, NC=1, NR=2, Chunk=1, Cache=1, Kinds=["ok"], FailAts=[0, 1, 2], CanStop=True),
              dict(N=3, NW=2, NC=2, NR=1, Chunk=2, Cache=1, Kinds=["ok"], FailAts=[0, 1, 2], CanStop=True),
              dict(N=4, NW=2, NC=1, NR=1, Chunk=2, Cache=2, Kinds=["ok", "none"], FailAts=[0, 2], CanStop=True)]
    C.model_check(ctx, m, live=True)
    jobs = []
    g = [dict(N=4, NW=2, NC=1, NR=1, Chunk=1, Cache=1, Kinds=["ok"], FailAts=[0, 1, 2], CanStop=True),
         dict(N=6, NW=3, NC=1, NR=1, Chunk=1, Cache=1, Kinds=["ok"], FailAts=[0], CanStop=False),
         dict(N=4, NW=2, NC=2, NR=2, Chunk=2, Cache=1, Kinds=["ok", "fail"], FailAts=[0, 1, 2], CanStop=True)]
    for i, plan in enumerate(g):
        for j, b in enumerate(C.gen(ctx, plan, ctx.pick(60, 400))):
            jobs.append(("guided", plan, b, ctx.seed * 1000 + j, (i + j) % 3, str(ctx.scratch)))
    rng = random.Random(ctx.seed + 77)
    jobs += C.random_jobs(rng, ctx.pick(600, 6000), True, str(ctx.scratch))
    recs = vf.pmap(C.one, jobs, timeout=120, total=ctx.pick(200, 2000))
    recs = C.judge(ctx, recs, [lambda c, r: c in CL])
    for r in recs:
        ctx.case([r["src"]["plan"], r["kind"], r["ev"]])
    gs = [r["src"] for r in recs if r["src"]["typ"] == "guided"]
    ctx.extra.update(guided=len(gs), labels_followed=sum(s["met"] for s in gs),
                     labels_skipped=sum(s["skipped"] for s in gs),
                     random=len(recs) - len(gs),
                     faults={f: sum(r["fault"] == f for r in recs)
                             for f in ("none", "write", "signal")})
    ctx.rule = ("one case = one run of the real pool under one schedule with at most one fault; "
                "distinct = distinct sequence of observable events")
    for r in recs[:2]:
        ctx.sample(dict(plan=r["src"]["plan"], kind=r["kind"], fault=r["fault"], events=r["ev"][:40]))
