import datetime as dt
import random

import numpy as np
import pandas as pd

import vf

LEVEL = "model_checking"
PARAMS = [["omega", "tau", "t_v"], ["tau", "omega", "NormBRDF"], ["x", "bsf", "y2"], ["NormBRDF", "t", "tau"]]


def build(case):
    """case: times (datetimes), labs[i][p], rules, seed -> Fits, meta"""
    import fitcommon as F
    times, labs, rules, seed = case
    rng = random.Random(seed)
    n, NP = len(times), len(rules)
    names = list(rng.choice(PARAMS))[:NP]
    ids = list(range(n))
    cols = dict(sig=[-20 + .37 * i for i in ids], inc=[.3 + .01 * i for i in ids],
                data_weights=[1 + .125 * i for i in ids], extra=[f"e{i}" for i in ids])
    labfn = {}
    for p, r in enumerate(rules):
        k = rng.randrange(len(F.LABELS))
        labfn[p] = F.LABEL_NAMES[k]
        if "man" in r["k"]:
            cols[names[p] + "_dyn"] = [F.LABELS[k](labs[i][p]) for i in ids]
    order = list(cols)
    rng.shuffle(order)
    cols = {c: cols[c] for c in order}
    defdict = {}
    extra = rng.sample(["a_const", "b_aux"], rng.randint(0, 2))
    for q in range(NP):
        if extra and rng.random() < .5:
            e = extra.pop()
            defdict[e] = [False, 0.3] if e == "a_const" else [False, "auxiliary"]
            if e == "b_aux":
                cols["b_aux"] = [.1 * i for i in ids]
        defdict[names[q]] = [True, 0.5, F.freq_of(rules[q], rng), ([0.], [1.]), rng.random() < .2]
    if rng.random() < .15:
        cols.pop("data_weights")
    df = F.dataset(times, cols, rng)
    how = rng.random()
    if how < .5:
        fit = F.Fits(dataset=df, defdict=defdict, sig0=rng.random() < .5, dB=rng.random() < .5)
    else:
        fit = F.Fits(sig0=True, dB=True)
        if how < .75:
            fit.dataset = df
            fit.defdict = defdict
        else:
            fit.defdict = defdict
            fit.dataset = df
    return fit, names, cols, labfn


def near(vals, table):
    """decode an array of values to ids through a table id -> value"""
    t = np.asarray(table)
    a = np.asarray(vals, dtype=float)
    j = np.argmin(abs(a[..., None] - t), axis=-1)
    ok = np.max(abs(a - t[j]), initial=0) < 1e-9
    return j, bool(ok)


def observe(case):
    import fitcommon as F
    times, labs, rules, seed = case
    with vf.silent():
        fit, names, cols, labfn = build(case)
        n = len(times)
        exact = True
        # reading order must not matter: read the properties in random order
        rng = random.Random(seed + 1)
        order = ["param_dyn_dict", "index", "inc", "data", "mask", "data_weights", "param_dyn_df"]
        rng.shuffle(order)
        for o in order:
            getattr(fit, o)
        ids, ok = near(fit.dataset["sig"].values, cols["sig"])
        exact &= ok and sorted(ids) == list(range(n))
        for c, v in cols.items():
            exact &= list(fit.dataset[c]) == [v[i] for i in ids]
        exact &= list(fit.dataset.index) == [pd.Timestamp(times[i]) for i in ids]
        exact &= bool(fit.dataset.index.is_monotonic_increasing)
        pos = {i: q + 1 for q, i in enumerate(ids)}
        ds = []
        for i in ids:
            ds.append(dict(F.calendar(times[i]), lab=[labs[i][p] for p in range(len(rules))]))
        dd = fit.param_dyn_dict
        exact &= set(dd) == set(names)
        dyn, tabs = [], []
        for p in names:
            d = {}
            dyn.append([d.setdefault(v.item() if isinstance(v, np.generic) else v, len(d) + 1) for v in dd[p]])
            tabs.append(d)
        data, inc, mask = fit.data, fit.inc, fit.mask
        w = fit.data_weights
        jd, ok1 = near(data, cols["sig"])
        ji, ok2 = near(inc, cols["inc"])
        exact &= ok1 and ok2 and data.shape == inc.shape == mask.shape
        if "data_weights" in cols:
            jw, ok3 = near(w, cols["data_weights"])
            exact &= ok3 and w.shape == data.shape
        else:
            exact &= bool(np.all(np.asarray(w) == 1.0))
            jw = jd

        def rows(j):
            return [[pos[i] for i, m in zip(r, mr) if not m] for r, mr in zip(j, mask)]
        art = [int(m.sum()) for m in mask]
        for r, m in zip(range(len(mask)), mask):
            m = list(m)
            exact &= m == sorted(m)           # artificial entries come last ...
            if any(m):                        # ... and repeat the last value
                q = m.index(True)
                for a in (data, inc):
                    exact &= bool(np.all(a[r][q:] == a[r][q - 1]))
        df = fit.param_dyn_df
        dfrows = [[tabs[p].get(v.item() if isinstance(v, np.generic) else v, 0)
                   for p, v in enumerate(row)] for row in df[names].values.tolist()]
        idx = [F.calendar(pd.Timestamp(t).to_pydatetime())["t"] for t in fit.index]
    return dict(ds=ds, rules=rules, dyn=dyn, rows=rows(jd), inc=rows(ji), wt=rows(jw), art=art,
                idx=idx, width=int(data.shape[1]), dfrows=dfrows, exact=bool(exact),
                names=names, labels=labfn)


def model(ctx, nsim=None):
    """laws of the grouping on every dataset of the model; returns emitted cases"""
    inv = "INVARIANTS Equiv Stamp Bins Convex Slots\nPROPERTY Extend\n"
    ctx.tlc("Grouping", deadlock=False, timeout=1500, cfg_text="SPECIFICATION Spec\nCONSTANTS MaxN = %d "
            "Hours = {0, 24, 48, 120, 168, 288, 300} Labels = {1, 2} NP = 1 Emitting = FALSE\n"
            % ctx.pick(3, 4) + inv)
    out = ctx.tlc("Grouping", deadlock=False, workers=1, timeout=1500, cfg_text="SPECIFICATION Spec\n"
                  "CONSTANTS MaxN = 3 Hours = {0, 24, 48, 96} Labels = {1, 2} NP = %d Emitting = TRUE\n" % 1 + inv)
    cases = vf.printed(out)
    out = ctx.tlc("Grouping", deadlock=False, workers=4, simulate=nsim or ctx.pick(150, 4000), depth=9,
                  timeout=1500, cfg_text="SPECIFICATION Spec\n"
                  "CONSTANTS MaxN = 6 Hours = {0, 12, 24, 36, 48, 96, 168, 744, 800} Labels = {1, 2, 3} "
                  "NP = 2 Emitting = TRUE\n")
    sim = vf.printed(out)
    return cases, sim


def to_case(b, rng):
    import fitcommon as F
    base = rng.choice(F.BASES)
    return ([base + dt.timedelta(hours=h) for h in b["hours"]], b["labs"], b["rules"], rng.randrange(10**9))


def random_case(rng):
    import fitcommon as F
    n = rng.choice([1, 2, 3, 5, 8, 10, 13])
    NP = rng.choice([1, 1, 2, 2, 3])
    base = rng.choice(F.BASES)
    times = [base + dt.timedelta(hours=h) for h in F.rand_hours(rng, n)]
    nl = rng.choice([1, 2, 3, 12])
    labs = [[rng.randint(0, nl) for _ in range(NP)] for _ in range(n)]
    return times, labs, [F.rand_rule(rng) for _ in range(NP)], rng.randrange(10**9)


def run(ctx):
    rng = random.Random(ctx.seed)
    cases, sim = model(ctx)
    n = ctx.pick(1500, len(cases))
    pick = rng.sample(cases, min(n, len(cases)))
    jobs = [to_case(b, rng) for b in pick + sim]
    jobs += [random_case(rng) for _ in range(ctx.pick(1500, 20000))]
    ctx.extra["cases"] = dict(exhaustive=len(pick), of=len(cases), simulated=len(sim),
                              random=len(jobs) - len(pick) - len(sim))
    recs, keep = [], []
    for j, r in zip(jobs, vf.pmap(observe, jobs, timeout=60, total=ctx.pick(500, 5000))):
        if r is None:
            continue
        if isinstance(r, vf.Err):
            last = r.text.strip().splitlines()[-1]
            ctx.violation("raises-" + "-".join(sorted({x["k"] for x in j[2]})), f"{j[2]}: {last}\n{r.text[-900:]}", j)
            continue
        ctx.trace()
        ctx.case([r["ds"], r["rules"]])
        recs.append(r)
        keep.append(j)
    for i in range(0, len(recs), 4000):
        for f in ctx.validate("GroupingTrace", recs[i:i + 4000], "SPECIFICATION Spec\n", timeout=1500):
            x = recs[i + f[0] - 1]
            ctx.violation(f[1], f"{keep[i + f[0] - 1]}: {x}", keep[i + f[0] - 1])
    ctx.rule = ("one case = one dataset with one rule per fitted parameter given to a real Fits object, "
                "all grouping properties recorded; datasets of the model (every one up to 3 observations) "
                "plus simulated and random ones; distinct by dataset and rules")
    if recs:
        ctx.sample(recs[0])
