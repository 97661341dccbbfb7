import random

import stcommon as S
import vf

LEVEL = "model_checking"


def run(ctx):
    ctx.tlc("Store", deadlock=False, cfg_text="SPECIFICATION Spec\nCONSTANTS M = "
            f"{ctx.pick(3, 4)} MaxRuns = 3" ' Stops = {"none","crash"}\n'
            "INVARIANTS Unique Stable\nPROPERTIES Kept Resumed\nVIEW View\n", timeout=1500)
    rng = random.Random(ctx.seed)
    jobs = []
    for M, n, runs in ((3, ctx.pick(60, 400), 3), (4, ctx.pick(80, 600), 4), (5, ctx.pick(30, 150), 3)):
        for j, b in enumerate(S.gen(ctx, M, runs, ["none"], n)):
            mode = rng.choice(["raw", "raw", "stem"])
            pool = rng.randrange(len(S.POOLS))
            if mode == "stem" and len({S.stem(x) for x in S.POOLS[pool][:M]}) < M:
                mode = "raw"
            jobs.append((rng.randrange(10**9), b, M, pool, mode, rng.choice([0, 1, 2]),
                         str(ctx.scratch)))
    hs = vf.pmap(S.history, jobs, timeout=200, total=ctx.pick(240, 2400))
    hs = S.judge(ctx, hs)
    ctx.rule = "one case = one history of runs over one database; distinct = distinct observed history"
    ctx.sample(hs[0]["runs"])
