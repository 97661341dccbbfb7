import contextlib
import io
import math
import random
import re

import numpy as np

import vf

LEVEL = "model_checking"
NAN = float("nan")


def div(a, b):
    return a / b if b else (NAN if a == 0 else math.inf)


def expected(c):
    """metric values from the specification's exact terms"""
    n = len(c["x"])
    q = lambda r: r[0] / r[1]
    e = dict(bias=q(c["bias"]), rmsd=math.sqrt(q(c["rmsd2"])), ub_rmsd=math.sqrt(q(c["ub2"])), mae=q(c["mae"]))
    if all(d for _, d in c["mape"]):
        e["mape"] = sum(a / d for a, d in c["mape"]) / n
    for k in ("pearson", "spearman"):
        cov, vx, vy = c[k]
        e[k] = cov / math.sqrt(vx * vy) if vx * vy else NAN
    cov, vx, vy = c["pearson"]
    if n > 1 and vy:
        e["std_ratio"] = math.sqrt(vx / vy)
    if n > 1:
        if vx == 0:
            e["linregress"] = None
        else:
            r = cov / math.sqrt(vx * vy) if vy else 0.0
            r = max(-1.0, min(1.0, r))
            e["linregress"] = d = dict(slope=c["line"][0] / vx, intercept=c["line"][1] / (n * vx), rvalue=r)
            if n > 2:
                # vx, vy carry a factor n^2
                d["stderr"] = math.sqrt(max(0.0, (vx * vy - cov * cov) / vx / vx / (n - 2)))
                d["intercept_stderr"] = d["stderr"] * math.sqrt(c["sxx"] / n)
                if abs(r) < 1 - 1e-12:
                    from scipy import stats
                    d["pvalue"] = 2 * stats.t.sf(abs(r) * math.sqrt((n - 2) / (1 - r * r)), n - 2)
                else:
                    d["pvalue"] = 0.0
    return e


def differs(got, want, scale=1.0):
    if want is None or got is None:
        return None if got is want else f"{got!r} instead of {want!r}"
    if isinstance(want, dict):
        for k, v in want.items():
            if k == "rvalue" and math.isnan(v):
                continue
            d = differs(got[k], v, scale if "stderr" not in k else 100 * scale)
            if d and not (k == "pvalue" and abs(got[k] - v) < 1e-6):
                return f"{k}: {d}"
        return None
    if math.isnan(want):
        return None if math.isnan(got) else f"{got!r} instead of nan"
    tol = 1e-9 * abs(want) + 3e-8 * scale
    return None if abs(got - want) <= tol else f"{got!r} instead of {want!r}"


def series(x, y, style, rng):
    import pandas as pd
    n = len(x)
    if style % 4 == 0:
        ix = list(range(n))
    elif style % 4 == 1:
        ix = pd.date_range("2020-01-30", periods=n, freq="36h")
    elif style % 4 == 2:
        ix = list(range(n))
        rng.shuffle(ix)
    else:
        ix = pd.DatetimeIndex(["2020-01-0%d" % (1 + i // 2 % 9) for i in range(n)])
    t = int if style % 3 == 0 and all(float(v).is_integer() for v in x) else float
    return pd.Series(np.array(x, t), index=ix, name="a"), pd.Series(np.array(y, float), index=ix, name="b")


def observe(job):
    c, seed = job
    from rt1.rtmetrics import RTmetrics
    rng = random.Random(seed)
    fails = []
    sets = [(c["x"], c["y"], expected(c), 1.0)]
    if rng.random() < .5:
        # the same series in other units: x -> f x + s with known effect
        f, s = rng.choice([.125, 3.0, 1000.0]), rng.choice([0.0, -7.5, 250.0])
        e = expected(c)
        g = dict(bias=e["bias"] * f, rmsd=e["rmsd"] * f, ub_rmsd=e["ub_rmsd"] * f, mae=e["mae"] * f,
                 pearson=e["pearson"], spearman=e["spearman"])
        if "std_ratio" in e:
            g["std_ratio"] = e["std_ratio"]
        if e.get("linregress"):
            l = e["linregress"]
            g["linregress"] = {k: l[k] for k in ("slope", "rvalue", "stderr", "pvalue") if k in l}
            g["linregress"]["intercept"] = l["intercept"] * f + s * (1 - l["slope"])
        sets.append(([v * f + s for v in c["x"]], [v * f + s for v in c["y"]], g, max(f, abs(s))))
    for x, y, want, scale in sets:
        a, b = series(x, y, rng.randrange(12), rng)
        ca, cb = a.copy(), b.copy()
        with np.errstate(all="ignore"), vf.silent():
            try:
                full = RTmetrics.allmetrics(a, b)
            except Exception as ex:
                if len(x) < 2:
                    full = None
                else:
                    raise
            for k, w in want.items():
                got = getattr(RTmetrics, k)(a, b)
                d = differs(got, w, scale)
                if d:
                    fails.append((k, f"{x} {y}: {d}"))
                if full is not None and str(full[k]) != str(got):
                    fails.append(("allmetrics " + k, f"{x} {y}: {full[k]} {got}"))
            if full is not None and set(full) != {"pearson", "spearman", "linregress", "rmsd", "ub_rmsd", "bias", "mae", "mape", "std_ratio"}:
                fails.append(("allmetrics", f"metrics {sorted(full)}"))
        if full is not None and rng.random() < .2:
            out = io.StringIO()
            with contextlib.redirect_stdout(out), np.errstate(all="ignore"):
                RTmetrics.metrics_table(a, b)
            rows = re.findall(r"^[ -]*(\w+)\s*\|\s*(\S+)", out.getvalue(), re.M)
            flat = []
            for k, v in full.items():
                if isinstance(v, dict):
                    flat += [(k, None)] + list(v.items())
                elif v is not None:
                    flat.append((k, v))
            table = [(k, None if v == "|" else float(v)) for k, v in rows if k != "METRIC"]
            if [k for k, _ in table] != [k for k, _ in flat]:
                fails.append(("metrics_table", f"rows {table}"))
            elif any(v is not None and not (abs(v - w) <= 6e-7 * (1 + abs(w)) or v != v and w != w or v == w)
                     for (_, v), (_, w) in zip(table, flat)):
                fails.append(("metrics_table", f"values {table} {flat}"))
        if not (a.equals(ca) and b.equals(cb)):
            fails.append(("input modified", str((x, y))))
    return fails


def textbook(x, y):
    x, y = np.asarray(x, float), np.asarray(y, float)
    n = len(x)
    dx, dy = x - x.mean(), y - y.mean()
    e = dict(bias=(x - y).mean(), rmsd=math.sqrt(((x - y) ** 2).mean()), ub_rmsd=math.sqrt(((dx - dy) ** 2).mean()),
             mae=abs(x - y).mean(), mape=(abs(x - y) / abs(x)).mean())
    vx, vy = (dx ** 2).sum(), (dy ** 2).sum()
    if n > 1 and min(vx, vy) > 1e-12:
        e["pearson"] = (dx * dy).sum() / math.sqrt(vx * vy)
        e["std_ratio"] = math.sqrt(vx / vy)
        e["linregress"] = dict(slope=(dx * dy).sum() / vx, intercept=y.mean() - (dx * dy).sum() / vx * x.mean())
        rk = lambda v: np.array([2 * (np.round(v, 10) < w).sum() + (np.round(v, 10) == w).sum() for w in np.round(v, 10)], float)
        rx, ry = rk(x) - rk(x).mean(), rk(y) - rk(y).mean()
        if (rx ** 2).sum() and (ry ** 2).sum():
            e["spearman"] = (rx * ry).sum() / math.sqrt((rx ** 2).sum() * (ry ** 2).sum())
    return e


def observe_fit(job):
    """metrics of a fit against the values the specification pairs"""
    c, seed = job
    import datetime as dt
    import fitgen as G
    import refmodel as M
    rng = random.Random(seed)
    base = dt.datetime(2020, 2, 27)
    times = [base + dt.timedelta(hours=o["t"]) for o in c["ds"]]
    case = G.Case(times, [o["lab"] for o in c["ds"]], c["rules"], seed, interp=False)
    n = len(times)
    import fitmodels as FM
    slots = {}
    names = case.names
    for i in range(n):
        for p, q in enumerate(names):
            slots.setdefault(q, {})[c["out"][i][p]] = None
    val = {}
    for q in slots:
        for s in sorted(slots[q]):
            val[s] = FM.pick_value(rng, q, 8)
            slots[q][s] = val[s]
    clash = None
    if rng.random() < .35:                      # a dataset column with the name of a fitted parameter or a contribution
        clash = rng.choice(names + ["tot", "surf"])
        if clash in case.cols:
            clash = None
        else:
            case.cols[clash] = [round(rng.random() + .1, 5) for _ in range(n)]
    case.cols["other"] = [round(rng.uniform(.1, 2), 5) for _ in range(n)]
    if rng.random() < .4:
        case.cols["text"] = ["a"] * n
    fails = []
    with vf.silent():
        import pandas as pd
        df = pd.DataFrame(case.cols, index=pd.DatetimeIndex(times))
        if len(set(times)) == n and rng.random() < .5:
            df = df.iloc[rng.sample(range(n), n)]
        import fitcommon as F
        fit = F.Fits(sig0=case.sig0, dB=case.dB, dataset=df, defdict=case.defdict(), set_V_SRF=case.svs(), int_Q=False)
        fit.res_dict = {q: [slots[q][s] for s in sorted(slots[q])] for q in case.names_def}
        per = {}
        for i in range(n):
            v = case.params(i, {q: val[c["out"][i][p]] for p, q in enumerate(names)})
            for k, x in zip(("tot", "surf", "vol"), case.model.f(v, np.float64(case.inc[i]))):
                per.setdefault(("calc_model", k), []).append(float(M.units(x, case.inc[i], case.sig0, case.dB)))
            for p, q in enumerate(names):
                per.setdefault(("res_df", q), []).append(val[c["out"][i][p]])
        for k, x in case.cols.items():
            if not isinstance(x[0], str) and not k.endswith("_dyn"):
                per[("dataset", k)] = x
        count = {}
        for s, k in per:
            count[k] = count.get(k, 0) + 1
        keyname = lambda sk: sk[1] if count[sk[1]] == 1 else f"{sk[1]}__{sk[0]}"
        keys = sorted(per)
        pairs = [(a, b) for a in keys for b in keys if a != b]
        rng.shuffle(pairs)
        pairs.sort(key=lambda ab: ab[0][0] == ab[1][0])
        # two parameters are compared by time stamp
        if len(set(times)) != n:
            pairs = [ab for ab in pairs if not ab[0][0] == ab[1][0] == "res_df"]
        for a, b in pairs[:6] + pairs[-2:]:
            m = getattr(getattr(fit.metric, keyname(a)), keyname(b))
            with np.errstate(all="ignore"):
                want = textbook(per[a], per[b])
                for k, w in want.items():
                    if k == "mape" and min(map(abs, per[a])) < 1e-9 or not isinstance(w, dict) and not np.isfinite(w):
                        continue
                    got = getattr(m, k)
                    sc = max(1e-3, max(map(abs, per[a] + per[b]))) if k not in ("pearson", "spearman") else 1.0
                    if isinstance(w, dict):
                        sc = 10 * (1 + abs(w["slope"]) + abs(w["intercept"]))
                    d = differs(got, w, sc)
                    if d:
                        fails.append((f"{k} of two quantities of a fit", f"{keyname(a)} {keyname(b)} ({a[0]} {b[0]}): {d}"))
    return fails, [keyname(a) for a in keys]


def run(ctx):
    rng = random.Random(ctx.seed)
    laws = "INVARIANTS Sym Split Cauchy Zero Shift Mono OrderFree Normal Emit\n"
    out = ctx.tlc("Metrics", deadlock=False, timeout=2400,
                  cfg_text="SPECIFICATION Spec\nCONSTANTS MaxN = %d\nVals <- %s\nEmitMod = %d\nLongN = {2}\nLongVals = {0}\n" % ctx.pick(
                      (3, "Tiny", 2), (4, "Tiny", 10)) + laws)
    cases = vf.printed(out, "MET")
    out = ctx.tlc("Metrics", deadlock=False, workers=1, simulate=ctx.pick(400, 5000), depth=ctx.pick(8, 12), timeout=600,
                  cfg_text="SPECIFICATION LSpec\nCONSTANTS MaxN = 1\nVals = {0}\nEmitMod = 1\nLongN <- Lengths\nLongVals <- Numbers\n"
                           "INVARIANTS LSplit LEmit\n")
    cases += vf.printed(out, "MET")
    jobs = [(c, rng.randrange(10 ** 9)) for c in cases]
    for j, r in zip(jobs, vf.pmap(observe, jobs, timeout=60, total=ctx.pick(300, 3000))):
        if r is None:
            continue
        if isinstance(r, vf.Err):
            last = r.text.strip().splitlines()[-1]
            ctx.violation("raises " + last[:60], f"{j}: {last}\n{r.text[-1200:]}", j)
            continue
        ctx.trace()
        ctx.case([j[0]["x"], j[0]["y"]])
        for k, d in r:
            ctx.violation(k, d, j)
    out = ctx.tlc("MetricPair", deadlock=False, timeout=1500, cfg_text="SPECIFICATION Spec\nCONSTANTS MaxN = %d Hours = {%s} "
                  "Labels = {1, 2} NP = 2 EmitMod = %d\nINVARIANTS Rows Right PerStamp Emit\n" % ctx.pick((3, '0, 60', 4), (4, '0, 24, 60', 40)))
    prs = [c for c in vf.printed(out, "PAIR") if all(r["k"] != "num" for r in c["rules"])]
    out = ctx.tlc("MetricPair", deadlock=False, simulate=ctx.pick(40, 400), depth=12, timeout=1500,
                  cfg_text="SPECIFICATION Spec\nCONSTANTS MaxN = 7 Hours = {0, 24, 60, 72, 100} "
                  "Labels = {1, 2, 3} NP = 3 EmitMod = 1\nINVARIANTS Rows Right Emit\n")
    sim = [c for c in vf.printed(out, "PAIR") if all(r["k"] != "num" for r in c["rules"]) and len(c["ds"]) > 2]
    ctx.extra["pairings"] = dict(exhaustive=len(prs), simulated=len(sim))
    prs = rng.sample(prs, min(len(prs), ctx.pick(350, 6000))) + rng.sample(sim, min(len(sim), ctx.pick(250, 4000)))
    jobs = [(c, rng.randrange(10 ** 9)) for c in prs]
    for j, r in zip(jobs, vf.pmap(observe_fit, jobs, timeout=60, total=ctx.pick(300, 3000))):
        if r is None:
            continue
        if isinstance(r, vf.Err):
            last = r.text.strip().splitlines()[-1]
            ctx.violation("fit raises " + last[:60], f"{j}: {last}\n{r.text[-1200:]}", j)
            continue
        ctx.trace()
        ctx.case([j[0]["ds"], j[0]["rules"], r[1]])
        for k, d in r[0]:
            ctx.violation(k, f"{j}: {d}", j)
    ctx.rule = ("one case = one pair of series (all metrics, allmetrics, table) compared with the specification's exact values, or one "
                "fit whose metrics are compared with the definitions applied to the values the specification pairs")
    if cases:
        ctx.sample(cases[-1])
