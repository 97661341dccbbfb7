import random

import stcommon as S
import vf

LEVEL = "fault_enumeration"


def run(ctx):
    ctx.tlc("Store", deadlock=False, cfg_text="SPECIFICATION Spec\nCONSTANTS M = "
            f"{ctx.pick(3, 4)} MaxRuns = 3" ' Stops = {"none","crash","signal","wfail"}\n'
            "INVARIANTS Unique Stable\nPROPERTIES Kept Resumed\nVIEW View\n", timeout=1500)
    rng = random.Random(ctx.seed + 5)
    jobs = []
    for M, n, stops in ((4, ctx.pick(70, 500), ["crash"]), (4, ctx.pick(60, 500), ["wfail"]),
                        (4, ctx.pick(60, 500), ["signal"]),
                        (4, ctx.pick(40, 400), ["none", "crash", "wfail", "signal"]),
                        (3, ctx.pick(30, 300), ["part"])):
        for b in S.gen(ctx, M, 2, stops, n):
            # interrupted runs over long lists, then everything is run again
            full = list(range(1, M + 1))
            rng.shuffle(full)
            runs = [dict(b[0], list=full, bad=[])] + b[1:] + [dict(list=full, bad=[], stop="none")]
            jobs.append((rng.randrange(10**9), runs, M, rng.choice([0, 1, 2, 4]), "raw",
                         rng.choice([0, 1, 2]), str(ctx.scratch)))
    hs = vf.pmap(S.history, jobs, timeout=200, total=ctx.pick(240, 2400))
    hs = S.judge(ctx, hs)
    ctx.extra["stops"] = {s: sum(x["stop"] == s for h in hs for x in h["runs"])
                          for s in ("none", "crash", "wfail", "signal", "part")}
    ctx.rule = ("one case = one history: runs stopped between two writes (kill), by a failing write, "
                "by a signal, or (known finding) between the tables of one batch, followed by "
                "complete runs; distinct = distinct observed history")
    ctx.sample(hs[0]["runs"])
