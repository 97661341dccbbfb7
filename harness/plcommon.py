"""P01 / P02: behaviours of spec/Pipeline.tla replayed into the real pool, and
random priority schedules; every run is judged by spec/PipelineTrace.tla."""
import json
import os
import random

import vf
import pipeline as P
import plrec

INV = ("INVARIANTS TypeOK AtMostOnce OnlyOk NoLoss NoLossWithoutFault Complete DrainComb "
       "Drained DrainWrite Counters CountersEnd Gated\n")


def consts(N, NW, NC, NR, Chunk, Cache, Kinds, FailAts, CanStop):
    k = ", ".join(f'"{x}"' for x in Kinds)
    f = ", ".join(map(str, FailAts))
    return (f"CONSTANTS N = {N} NW = {NW} NC = {NC} NR = {NR} Chunk = {Chunk} Cache = {Cache}\n"
            f" Kinds = {{{k}}} FailAts = {{{f}}} CanStop = {'TRUE' if CanStop else 'FALSE'}\n")


def model_check(ctx, plans, live):
    for p in plans:
        ctx.tlc("Pipeline", heap="14g", cfg_text="SPECIFICATION Spec\n" + consts(**p) + INV
                + ("PROPERTIES Termination Throttle\n" if live else ""), timeout=1500)


def gen(ctx, plan, num, depth=400):
    cfg = ("INIT GInit\nNEXT GNext\n" + consts(**plan) + "INVARIANTS Emit\n"
           "ACTION_CONSTRAINT Interesting\n").replace("ACTION_CONSTRAINT", "CONSTRAINT")
    out = ctx.tlc("PipelineGen", cfg_text=cfg, simulate=num, depth=depth, workers=1,
                  deadlock=False)
    return vf.printed(out)


def one(job):
    """run one job; returns the record for the trace specification"""
    typ, plan, beh, seed, layout, scratch = job
    path = os.path.join(scratch, f"p{os.getpid()}_{seed}_{typ}.h5")
    kinds = beh["kind"]
    args = P.make_args(kinds, layout=layout)
    if typ == "guided":
        ch = P.Guided([tuple(x) for x in beh["hist"]], seed)
    else:
        ch = P.random_chooser(seed, timeout=0.1 + 0.4 * (seed % 3 == 0))
    kw = {}
    r = P.Run(args, path, ch, NW=plan["NW"], NC=plan["NC"], NR=plan["NR"],
              chunk=plan["Chunk"], cache=plan["Cache"], fail_open=beh["failAt"],
              starmap_args=None, **kw)
    sig = beh.get("sigat", 0)
    if sig:
        import coop
        base = ch
        state = dict(n=0)

        def ch2(w, opts):
            # main is waiting for the pool: a signal interrupts it at the sig-th choice
            running = any(t.role == "worker" for t in w.tasks)
            if running and not state.get("sent"):
                state["n"] += 1
                if state["n"] >= sig and w.main.op[0] in ("result", "tstart", "submit", "peek"):
                    state["sent"] = True
                    w.main.pending_signal = coop._signal.SIGTERM
                    return (w.main, "signal")
            return base(w, opts)
        r.world.chooser = ch2
    r.go()
    w = r.world
    evs = {e["ev"] for e in w.events}
    fault = ("signal" if "signal" in evs else "write" if "wfail" in evs else "none")
    db = P.read_db(path)
    try:
        os.unlink(path)
    except OSError:
        pass
    rec = plrec.record(r, args, db, fault)
    rec["src"] = dict(typ=typ, plan=plan, seed=seed, layout=layout, kinds=kinds,
                      failAt=beh["failAt"], sigat=sig)
    if typ == "guided":
        rec["src"]["hist"] = beh["hist"]
        rec["src"]["met"], rec["src"]["skipped"] = ch.met, ch.skipped
    return rec


def random_jobs(rng, n, faults, scratch):
    jobs = []
    for k in range(n):
        N = rng.choice([1, 2, 3, 4, 5, 6, 8, 11])
        plan = dict(N=N, NW=rng.choice([1, 2, 3, 4]), NC=rng.choice([1, 1, 2, 3]),
                    NR=rng.choice([1, 1, 2, 3]), Chunk=rng.choice([1, 2, 3, 5, 100]),
                    Cache=rng.choice([1, 2, 3, 10]))
        pool = rng.choice([["ok"], ["ok", "ok", "ok", "skip", "fail"],
                           ["ok", "ok", "ok", "bad", "none", "rfail", "skip", "fail"]])
        kinds = [rng.choice(pool) for _ in range(N)]
        beh = dict(kind=kinds, failAt=0)
        if faults and rng.random() < 0.5:
            if rng.random() < 0.5:
                beh["failAt"] = rng.randint(1, 4)
            else:
                beh["sigat"] = rng.randint(1, 120)
        jobs.append(("random", plan, beh, rng.randrange(10**9), rng.choice([0, 1, 2]), scratch))
    return jobs


def judge(ctx, recs, clauses, keyf=None):
    for r in recs:
        if isinstance(r, vf.Err):
            ctx.violation("harness-exception", r.text, r.item)
    recs = [r for r in recs if r is not None and not isinstance(r, vf.Err)]
    # the trace specification is sequential: several TLC processes side by side
    n = max(1, min(6, len(recs) // 60))
    parts = [recs[i::n] for i in range(n)]
    import concurrent.futures as cf
    with cf.ThreadPoolExecutor(n) as ex:
        res = list(ex.map(lambda p: ctx.validate("PipelineTrace", [
            {k: v for k, v in r.items() if k != "src"} for r in p],
            "SPECIFICATION Spec\n", heap="3g"), parts))
    for p, fails in zip(parts, res):
        for f in fails:
            rec = p[f[0] - 1]
            for pat in clauses:
                if pat(f[1], rec):
                    ctx.violation(f[1].replace(" ", "-"),
                                  dict(clause=f[1], event=f[2], src=rec["src"],
                                       copies=rec["copies"], hung=rec["hung"],
                                       error=rec["error"], counters=[rec["tot"], rec["mean"]]),
                                  rec["src"])
    ctx.trace(len(recs))
    return recs
