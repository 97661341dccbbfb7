import random

import numpy as np
import pandas as pd

import vf
import p08

LEVEL = "model_checking"
L = 27720


def table(c, fit, rng):
    """Fits.calc: parameter sets x incidence angles; tab[k][m] = the set and the angle the value belongs to"""
    import refmodel as M
    K, Q = rng.randint(1, 4), rng.randint(1, 4)
    inc = np.array(sorted(rng.sample([round(.15 + .04 * q, 3) for q in range(16)], Q), key=lambda v: rng.random()))
    import fitmodels as FM
    vals = {p: [FM.pick_value(rng, p) for _ in range(K)] for p in c.names_def}
    aux = {p: [FM.pick_value(rng, p) for _ in range(K)] for p in c.auxc}
    order = list(vals)
    rng.shuffle(order)
    form = rng.choice(["list", "array", "frame", "scalar"] if K == 1 else ["list", "array", "frame", "frame"])
    if form == "frame":
        idx = rng.sample(range(100, 130), K)
        param = pd.DataFrame({p: vals[p] for p in order}, index=idx)
        fixed = None
        if aux:      # further rows, in another order
            more = idx + [500, 501]
            fixed = pd.DataFrame({p: v + [.7, .8] for p, v in aux.items()}, index=more)
            fixed = fixed.loc[rng.sample(more, len(more))]
    else:
        f = dict(list=list, array=np.array, scalar=lambda v: v[0])[form]
        param = {p: f(vals[p]) for p in order}
        fixed = {p: f(v) for p, v in aux.items()} or None
    got = fit.calc(param, inc if Q > 1 or rng.random() < .5 else float(inc[0]), rng.random() < .5, fixed)
    got = np.asarray(got)
    got = got[0] if got.ndim == 3 else got
    if got.shape != (K, Q):
        return [[[0, 0]]], [K, Q]
    want = np.array([[float(M.units(c.model.f(dict(c.const, **{p: v[k] for p, v in dict(vals, **aux).items()}), np.float64(i))[0],
                                    i, c.sig0, c.dB)) for i in inc] for k in range(K)])
    at = lambda v, k, m: [k + 1, m + 1] if abs(v - want[k, m]) <= 1e-7 * (1 + abs(v)) else next(
        ([a + 1, b + 1] for a in range(K) for b in range(Q) if abs(v - want[a, b]) <= 1e-7 * (1 + abs(v))), [0, 0])
    return [[at(got[k, m], k, m) for m in range(Q)] for k in range(K)], [K, Q]


def observe(job):
    import fitcommon as F
    import fitgen as G
    times, labs, rules, seed = job
    rng = random.Random(seed + 5)
    c = G.Case(times, labs, rules, seed)
    n = len(times)
    perm = [c.names.index(p) for p in c.names_def]
    got = {}

    with vf.silent():
        fit = c.fits()

        def solver(fun, x0, jac="2-point", bounds=(-np.inf, np.inf), **kw):
            x0 = np.asarray(x0, dtype=float)
            m = len(x0)
            lo, hi = np.broadcast_to(bounds[0], m), np.broadcast_to(bounds[1], m)
            r2 = random.Random(seed + 9)
            xs = np.array([a + (b - a) * (.15 + .7 * (j + .5 * r2.random()) / m) for j, (a, b) in enumerate(zip(lo, hi))])
            fun(x0)
            r = np.array(fun(xs), dtype=float)
            dep = [[] for _ in r]
            for s in range(m):
                y = xs.copy()
                y[s] += .01
                for k in np.flatnonzero(abs(np.asarray(fun(y)) - r) > 1e-10 * (1 + abs(r))):
                    dep[k].append(s + 1)
            J = jac(xs)
            J = np.asarray(J.todense()) if hasattr(J, "todense") else np.asarray(J)
            r = np.array(fun(xs), dtype=float)
            got.update(x0=x0, lo=lo, hi=hi, xs=xs, r=r, dep=dep, J=J)
            import scipy.optimize as so
            return so.OptimizeResult(x=xs, fun=r, jac=J, cost=.5 * float(r @ r), grad=J.T @ r, nfev=1, njev=1,
                                     status=1, success=True, message="stub", optimality=0., active_mask=xs * 0)
        F.SOLVER["fn"] = solver
        try:
            fit.performfit(intermediate_results=rng.random() < .2)
        finally:
            F.SOLVER["fn"] = None
        ds_order = [list(c.sig).index(v) for v in fit.dataset["sig"]] if len(set(c.sig)) == n else None
        xs, r = got["xs"], got["r"]
        res_df, res_dict = fit.res_df, fit.res_dict
        cm = fit.calc_model()
        comp = fit.calc_model(return_components=True)
        tab, size = table(c, fit, rng)
    if ds_order is None:
        return None
    ids = ds_order
    pos = {i: q + 1 for q, i in enumerate(ids)}
    m = len(xs)

    def slot_of(v):
        j = int(np.argmin(abs(xs - v)))
        return j + 1 if abs(xs[j] - v) < 1e-9 else 0

    def codef(p, v, table):                       # declared values -> codes
        for a, b in table.items():
            if abs(a - v) < 1e-12:
                return b
        return 0
    ds = [dict(F.calendar(times[i]), lab=[labs[i][q] for q in perm]) for i in ids]
    rl = [rules[q] for q in perm]
    start, lo, hi, codes = [], [], [], {}

    def code(v):
        return codes.setdefault(round(float(v), 9), len(codes) + 1)
    for p in c.names_def:
        start.append(0 if c.aux[p] else code(c.start[p]))
        b = (c.lo[p], c.hi[p])
        lo.append([code(v) for v in b[0]])
        hi.append([code(v) for v in b[1]])
    # which parameter does a slot belong to is for the specification to say: give both codings
    x0 = []
    owner = []
    for p in c.names_def:
        owner += [p] * int(len(res_dict[p]))
    exact = list(res_dict) and set(res_dict) == set(c.names_def)
    for s, v in enumerate(got["x0"]):
        p = owner[s] if s < len(owner) else owner[-1]
        if c.aux[p]:
            a, b = __import__("fitmodels").RANGES[p]
            q = (v - a) * 25 / (b - a) * L
            x0.append(int(round(q)) if abs(q - round(q)) < 1e-3 else -1)
        else:
            x0.append(code(v))
    rd = [[slot_of(v) for v in np.atleast_1d(res_dict[p])] for p in c.names_def]
    sep = min([abs(a - b) for i_, a in enumerate(xs) for b in xs[:i_]], default=1)
    if sep < 1e-7:
        return None
    # values of parameters with interpolation are read from res_df
    ip = [p for p in c.names_def if c.interp[p]]
    knots = True
    for p in ip:
        md = fit.meandatetimes[p]
        if not fit._param_dyn_monotonic[p]:
            continue
        for t, v in zip(md, np.atleast_1d(res_dict[p])):
            t = pd.Timestamp(t)
            if t in res_df.index and len(md) > 2:
                knots &= abs(float(res_df[p].loc[t]) - v) < 1e-6 * (1 + abs(v)) + 1e-4 * (len(md) > 2)
    names = c.names_def

    def expected(i, dep):
        v = {}
        for p in names:
            if c.interp[p]:
                v[p] = float(res_df[p].loc[pd.Timestamp(times[i])])
            else:
                sl = [s for s in dep if owner[s - 1] == p] if len(owner) == m else []
                if len(sl) != 1:
                    return None
                v[p] = float(xs[sl[0] - 1])
        return c.ref(i, v)
    res, used = [], set()
    for k in range(len(r)):
        o, ok = 0, False
        for i in range(n):
            if i in used:
                continue
            e = expected(i, got["dep"][k])
            if e is None:
                break
            e = (c.w[i] if c.w else 1.0) * (e - c.sig[i])
            if abs(e - r[k]) < 1e-7 * (1 + abs(e)):
                o, ok = pos[i], True
                used.add(i)
                break
        res.append(dict(obs=o, dep=got["dep"][k], ok=ok))
    jac = [[s + 1 for s in range(m) if abs(got["J"][k, s]) > 1e-12] for k in range(len(got["J"]))]
    df = [dict(t=F.calendar(t.to_pydatetime())["t"],
               s=[0 if c.interp[p] else slot_of(row[p]) for p in names]) for t, row in res_df.iterrows()]
    calc, used = [], set()
    direct = {}
    for k, (t, row) in enumerate(cm.iterrows()):
        o, ok = 0, False
        for i in range(n):
            if i in used or pd.Timestamp(times[i]) != t:
                continue
            # the values res_df states for the stamp, or (several groups at one stamp) those of the residual
            e = [x for x in res if x["obs"] == pos[i]]
            q = expected(i, e[0]["dep"]) if e else None
            if q is not None and abs(q - row["tot"]) < 1e-7 * (1 + abs(q)):
                o, ok = pos[i], True
                used.add(i)
                break
        calc.append(dict(obs=o, ok=ok))
    lin = comp["tot"].values if not (c.dB) else 10 ** (comp["tot"].values / 10)
    parts = sum((comp[q].values if not c.dB else 10 ** (comp[q].values / 10)) for q in comp.columns if q != "tot")
    exact = bool(exact and np.allclose(lin, parts, rtol=1e-9) and np.array_equal(comp["tot"].values, cm["tot"].values)
                 and list(comp.index) == list(cm.index)
                 and np.array_equal(np.concatenate([np.atleast_1d(res_dict[p]) for p in names]), xs)
                 and fit.fit_output is not None)
    return dict(ds=ds, rules=rl, interp=[c.interp[p] for p in names], aux=[c.aux[p] for p in names],
                col=[[c.col[p][i] for i in ids] if c.aux[p] else [0] * n for p in names], L=L, start=start, lo=lo, hi=hi,
                x0=x0, lob=[code(v) for v in got["lo"]], hib=[code(v) for v in got["hi"]], res=res, jac=jac, dict=rd,
                df=df, calc=calc, exact=exact, tab=tab, size=size, knots=bool(knots), names=names)


def run(ctx):
    rng = random.Random(ctx.seed)
    ctx.tlc("FitLayout", deadlock=False, timeout=1500, cfg_text="SPECIFICATION Spec\nCONSTANTS MaxN = %d Hours = {0, 24, 60} "
            "Labels = {1, 2} NP = %d\nINVARIANTS OneEach SlotsUsed Sorted Shared Sens\n%s"
            % (ctx.pick(3, 4), 2, ctx.pick("", "PROPERTY Ends\n")))
    cases, sim = p08.model(ctx, ctx.pick(40, 600))
    pick = rng.sample(cases, min(ctx.pick(250, 2000), len(cases))) + rng.sample(sim, min(len(sim), ctx.pick(150, 3000)))
    import fitgen as G
    jobs = [p08.to_case(b, rng) for b in pick]
    jobs += [G.random_spec(rng) for _ in range(ctx.pick(500, 12000))]
    recs, keep = [], []
    for j, r in zip(jobs, vf.pmap(observe, jobs, timeout=60, total=ctx.pick(300, 4000))):
        if r is None:
            continue
        if isinstance(r, vf.Err):
            last = r.text.strip().splitlines()[-1]
            ctx.violation("raises " + last[:60], f"{j}: {last}\n{r.text[-1200:]}", j)
            continue
        ctx.trace()
        ctx.case([r["ds"], r["rules"], r["names"]])
        recs.append(r)
        keep.append(j)
    for i in range(0, len(recs), 3000):
        for f in ctx.validate("FitLayoutTrace", recs[i:i + 3000], "SPECIFICATION Spec\n", timeout=1500, shards=8, heap="3g"):
            x = recs[i + f[0] - 1]
            ctx.violation(f[1], f"{keep[i + f[0] - 1]}: {x}", keep[i + f[0] - 1])
    ctx.rule = ("one case = one call of performfit of a real Fits object with a recording solver: start values, bounds, "
                "residuals and their dependence on every fitted value, Jacobian pattern, res_dict, res_df, calc_model, and the values for a table of parameters (calc)")
    if recs:
        ctx.sample(recs[0])
