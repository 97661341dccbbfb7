import random

import numpy as np

import vf

LEVEL = "model_checking"


def observe(job):
    """perform real fits (real solver), several times, and record all evaluations"""
    import fitcommon as F
    import fitgen as G
    import fitmodels as FM
    import pandas as pd
    spec, free, seed = job
    rng = random.Random(seed)
    slots = None
    if free:
        # values per slot, measurements computed from them, start values = these values
        import datetime as dt
        base = dt.datetime(2020, 2, 27)
        times = [base + dt.timedelta(hours=o["t"]) for o in spec["ds"]]
        c = G.Case(times, [o["lab"] for o in spec["ds"]], spec["rules"], seed, interp=False)
        val = {}
        for i in range(len(times)):
            for p, q in enumerate(c.names):
                val.setdefault(spec["out"][i][p], FM.pick_value(rng, q, 8))
        for p, q in enumerate(c.names):
            c.cols[q + "_start"] = [val[spec["out"][i][p]] for i in range(len(times))]
            c.aux[q], c.start[q] = True, "auxiliary"
        for i in range(len(times)):
            c.sig[i] = c.ref(i, {q: val[spec["out"][i][p]] for p, q in enumerate(c.names)})
        c.cols["sig"] = c.sig
        owners = [(q, sorted({spec["out"][i][p] for i in range(len(times))})) for p, q in enumerate(c.names)]
        slots = {q: [val[s] for s in ss] for q, ss in owners}
        # (the order of the slots follows the order of the rows: repeated stamps are not shuffled)
        c.frame = lambda: pd.DataFrame(c.cols, index=pd.DatetimeIndex(times))
    else:
        c = G.Case(*spec, interp=rng.random() < .5)
        for p in c.names:                       # some bounds are narrow: the solution is at the bound
            if rng.random() < .3 and not c.aux[p]:
                c.lo[p], c.hi[p] = [c.start[p] * .9], [c.start[p] * 1.08]
    n = len(c.times)
    int_Q = not free and n <= 5 and rng.random() < .25
    kw = dict(max_nfev=rng.choice([3, 8, 25, 60]), ftol=1e-8, xtol=1e-8, gtol=1e-8)
    if rng.random() < .3:
        kw["x_scale"] = "jac"
    if rng.random() < .2:
        kw["method"] = "dogbox"
    rec = {}

    def solver(fun, x0, jac="2-point", bounds=(-np.inf, np.inf), **k):
        ev, acc = [], []

        def f(x):
            r = np.array(fun(x), float)
            ev.append((np.array(x, float), r))
            return r

        def j(x):
            acc.append(np.array(x, float))
            return jac(x)
        o = F._real_lsq(f, x0, jac=j, bounds=bounds, **k)
        rec.update(ev=ev, acc=acc, x0=np.array(x0, float), b=np.array(bounds, float), out=o)
        return o
    runs, first = [], None
    with vf.silent():
        F.SOLVER["fn"] = solver
        try:
            fit = c.fits(int_Q=int_Q, lsq_kwargs=dict(kw))
            how = ["first"] + rng.sample(["again", "log", "new", "reads", "keepcache", "copy"], 2)
            for h in how:
                log = False
                if h == "new":
                    fit = c.fits(int_Q=int_Q, lsq_kwargs=dict(kw))
                if h == "reads":
                    fit.calc_model(), fit.res_df, fit.metric, fit.calc({q: float(np.atleast_1d(v)[0]) for q, v in fit.res_dict.items()},
                                                                       np.array([.3, .4]),
                                                                       fixed_param={q: c.auxc[q][0] for q in c.auxc} or None)
                if h == "copy":       # (nothing that is shared or cached by the origin may matter)
                    fit = fit.reinit_object()
                if h == "log":
                    log = True
                fit.performfit(intermediate_results=log, print_progress=log, **(dict(clear_cache=False) if h == "keepcache" else {}))
                x = np.concatenate([np.atleast_1d(fit.res_dict[p]) for p in c.names_def])
                lo, hi = rec["b"]
                c0 = float(rec["ev"][0][1] @ rec["ev"][0][1]) or 1e-300
                eps = lambda a, b: np.all(abs(a - b) <= 1e-12 + 1e-10 * abs(b))
                pts = []

                def cls(p):
                    for i, q in enumerate(pts):
                        if eps(p, q):
                            return i + 1
                    pts.append(p)
                    return len(pts)
                # the cost of an evaluation in 10^-6 of the start
                cost = lambda r: 10 ** 9 if not np.isfinite(r).all() else int(round(min(1e9, 1e6 * float(r @ r) / c0))) if c0 > 1e-18 else 0
                evals = [dict(**{"in": bool(np.all(p >= lo) and np.all(p <= hi))}, c=cost(r), cls=cls(p)) for p, r in rec["ev"]]
                acc = [[e["cls"] for e in evals].index(cls(a)) + 1 for a in rec["acc"] if cls(a) in [e["cls"] for e in evals]]
                decl = []
                for p in c.names_def:
                    decl += [c.start[p]] * len(np.atleast_1d(fit.res_dict[p])) if not c.aux[p] else [None] * len(np.atleast_1d(fit.res_dict[p]))
                x0 = rec["x0"]
                start = np.array([v if d is None else d for v, d in zip(x0, decl)], float)
                if free:
                    start = np.concatenate([slots[p] for p in c.names_def])
                # residuals of the stored results
                tot = fit.calc_model()["tot"].values
                ds = fit.dataset
                ix = np.concatenate([list(v) for v in grouped(fit)]).astype(int)
                w = ds["data_weights"].values[ix] if c.w else 1.0
                r1 = w * (tot - ds["sig"].values[ix])
                fun_ = rec["out"].fun
                rep = len(r1) == len(fun_) and np.allclose(r1, fun_, rtol=1e-7, atol=1e-9) and fit.fit_output is not None \
                    and np.allclose(fit.fit_output.fun, r1, rtol=1e-7, atol=1e-9)
                lg = True
                if log:
                    ir = fit.intermediate_results
                    lg = len(ir["parameters"]) == len(rec["ev"]) == len(ir["residuals"]) and all(
                        eps(np.concatenate([np.atleast_1d(d[p]) for p in c.names_def]), e[0]) and np.allclose(q["abserr"], e[1])
                        for d, q, e in zip(ir["parameters"], ir["residuals"], rec["ev"]))
                res = dict(evals=evals, acc=acc, start=cls(start), res=cls(x), final=cost(r1), rep=bool(rep), log=bool(lg),
                           inside=bool(np.all(x >= lo) and np.all(x <= hi)
                                       and all(np.all(np.atleast_1d(fit.res_dict[p]) >= c.lo[p][0] - 1e-12)
                                               and np.all(np.atleast_1d(fit.res_dict[p]) <= c.hi[p][0] + 1e-12) for p in c.names_def)),
                           exact=bool(free and np.allclose(tot, ds["sig"].values[ix], rtol=1e-6, atol=1e-9)), same=True, how=h)
                if first is None:
                    first = (x, tot, cost(r1), len(evals))
                else:
                    res["same"] = bool(len(x) == len(first[0]) and np.allclose(tot, first[1], rtol=1e-5, atol=1e-8)
                                       and np.all(abs(x - first[0]) <= 1e-5 * (hi - lo)))
                    res["dev"] = float(np.max(abs(x - first[0]) / (hi - lo))) if len(x) == len(first[0]) else 9.
                runs.append(res)
        finally:
            F.SOLVER["fn"] = None
    return dict(runs=runs, free=bool(free), desc=[c.model.name, c.names_def, n, int_Q, str(kw)])


def grouped(fit):
    """positions of the observations in the order of calc_model: identified by their time stamp, angle and measurement"""
    inc, sig, mask = np.asarray(fit.inc), np.asarray(fit.data), np.asarray(fit.mask)
    di, ds = fit.dataset["inc"].values, fit.dataset["sig"].values
    used = set()
    for row in range(len(mask)):
        out = []
        for a, b, m in zip(inc[row], sig[row], mask[row]):
            if m:
                continue
            k = [j for j in range(len(di)) if j not in used and di[j] == a and ds[j] == b][0]
            used.add(k)
            out.append(k)
        yield out


def run(ctx):
    rng = random.Random(ctx.seed)
    for K, M, C in ctx.pick([(2, 1, 2), (1, 2, 1)], [(2, 1, 2), (1, 2, 1), (3, 1, 2)]):
        ctx.tlc("FitRun", deadlock=False, timeout=1500, cfg_text="SPECIFICATION Spec\nCONSTANTS K = %d M = %d C = %d Runs = 2\n"
                "INVARIANTS Inside NotWorse Same BestAccepted Exact\nPROPERTY Ends\n" % (K, M, C))
    out = ctx.tlc("MetricPair", deadlock=False, simulate=ctx.pick(40, 500), depth=13, timeout=1500,
                  cfg_text="SPECIFICATION Spec\nCONSTANTS MaxN = 8 Hours = {0, 24, 60, 72, 100} "
                  "Labels = {1, 2, 3} NP = 2 EmitMod = 1\nINVARIANTS Rows Right Emit\n")
    sim = [c for c in vf.printed(out, "PAIR") if all(r["k"] != "num" for r in c["rules"]) and len(c["ds"]) > 1]
    import fitgen as G
    jobs = [(c, True, rng.randrange(10 ** 9)) for c in rng.sample(sim, min(len(sim), ctx.pick(120, 2500)))]
    jobs += [(G.random_spec(rng, nmax=9), False, rng.randrange(10 ** 9)) for _ in range(ctx.pick(220, 5000))]
    recs, keep = [], []
    for j, r in zip(jobs, vf.pmap(observe, jobs, timeout=120, total=ctx.pick(400, 5000))):
        if r is None:
            continue
        if isinstance(r, vf.Err):
            last = r.text.strip().splitlines()[-1]
            ctx.violation("raises " + last[:60], f"{j}: {last}\n{r.text[-1200:]}", j)
            continue
        ctx.trace(len(r["runs"]))
        ctx.case([j[2], r["desc"]])
        recs.append(r)
        keep.append(j)
    for f in ctx.validate("FitRunTrace", recs, "SPECIFICATION Spec\n", timeout=1500, shards=8, heap="3g"):
        x = recs[f[0] - 1]
        ctx.violation(f[1], f"{keep[f[0] - 1]}: {x['desc']} {[dict(u, evals=u['evals'][:6]) for u in x['runs']]}", keep[f[0] - 1])
    ctx.rule = "one case = one fit definition whose fit is performed three times by the real solver (same, copied or new object); all evaluations are recorded"
    if recs:
        ctx.sample(recs[0])
