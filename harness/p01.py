import random

import plcommon as C
import vf

LEVEL = "model_checking"
CONTENT = {"input started twice", "two writers have the database open",
           "database contains something that belongs to no successful input",
           "something stored for a skipped or failed input", "a result is stored more than once",
           "a stored result differs from what was computed", "a successful result is not stored",
           "an input was not processed exactly once"}


def mine(clause, rec):
    if clause in CONTENT:
        return True
    return rec["fault"] == "none" and clause in ("run does not terminate",
                                                 "the run ends with an error")


def run(ctx):
    m = [dict(N=3, NW=2, NC=1, NR=1, Chunk=2, Cache=1, Kinds=["ok", "fail"], FailAts=[0], CanStop=False),
         dict(N=3, NW=2, NC=1, NR=2, Chunk=1, Cache=1, Kinds=["ok"], FailAts=[0], CanStop=False),
         dict(N=3, NW=2, NC=2, NR=1, Chunk=2, Cache=1, Kinds=["ok", "skip"], FailAts=[0], CanStop=False),
         dict(N=4, NW=2, NC=1, NR=1, Chunk=2, Cache=1, Kinds=["ok", "bad", "none"], FailAts=[0], CanStop=False)]
    if ctx.thorough:
        m += [dict(N=4, NW=2, NC=2, NR=1, Chunk=2, Cache=1, Kinds=["ok", "bad"], FailAts=[0], CanStop=False),
              dict(N=3, NW=2, NC=2, NR=2, Chunk=2, Cache=1, Kinds=["ok"], FailAts=[0], CanStop=False),
              dict(N=4, NW=3, NC=1, NR=1, Chunk=3, Cache=2, Kinds=["ok", "skip"], FailAts=[0], CanStop=False)]
    C.model_check(ctx, m, live=False)
    jobs = []
    g = [dict(N=4, NW=2, NC=2, NR=1, Chunk=2, Cache=1, Kinds=["ok", "ok", "fail", "bad"], FailAts=[0], CanStop=False),
         dict(N=5, NW=3, NC=1, NR=2, Chunk=1, Cache=2, Kinds=["ok", "skip", "none"], FailAts=[0], CanStop=False),
         dict(N=4, NW=2, NC=3, NR=2, Chunk=3, Cache=1, Kinds=["ok"], FailAts=[0], CanStop=False)]
    for i, plan in enumerate(g):
        for j, b in enumerate(C.gen(ctx, plan, ctx.pick(60, 400))):
            jobs.append(("guided", plan, b, ctx.seed * 1000 + j, (i + j) % 3, str(ctx.scratch)))
    rng = random.Random(ctx.seed)
    jobs += C.random_jobs(rng, ctx.pick(500, 6000), False, str(ctx.scratch))
    recs = vf.pmap(C.one, jobs, timeout=120, total=ctx.pick(200, 2000))
    recs = C.judge(ctx, recs, [mine])
    for r in recs:
        ctx.case([r["src"]["plan"], r["kind"], r["ev"]])
    gs = [r["src"] for r in recs if r["src"]["typ"] == "guided"]
    ctx.extra.update(guided=len(gs), labels_followed=sum(s["met"] for s in gs),
                     labels_skipped=sum(s["skipped"] for s in gs),
                     random=len(recs) - len(gs))
    ctx.rule = ("one case = one run of the real pool under one schedule; distinct = distinct "
                "sequence of observable events")
    for r in recs[:2]:
        ctx.sample(dict(plan=r["src"]["plan"], kind=r["kind"], events=r["ev"][:40]))
