"""P19: exports contain exactly the requested parameters and metrics of every fit (spec/Export.tla)"""
import random
import re

import e2e
import vf
import p22
import p19_funcs as F
from p05 import label, dropped

import numpy as np
import pandas as pd

LEVEL = "model_checking"
MODULE = "from p19_funcs import processing_cfg\n"
MODEL = ["tot", "surf", "vol", "inter"]
_memo = {}
SCALAR = dict(n_obs=F.n_obs, mean_sig=F.mean_sig, np_int=F.np_int, first_tau=F.first_tau)
SERIES = dict(twice=F.twice_sig, series_new=F.series_new, inc2=F.list_series)


def own_metric(kind, a, b):
    a, b = np.asarray(a, float), np.asarray(b, float)
    if kind == "pearson":
        return np.corrcoef(a, b)[0, 1]
    if kind == "rmsd":
        return np.sqrt(np.mean((a - b) ** 2))
    if kind == "bias":
        return np.mean(a) - np.mean(b)
    return np.mean(np.abs(a - b))


def definitions(head, names):
    """configuration -> [[name, kind]]"""
    secs, cur = {}, None
    for line in head.splitlines():
        m = re.match(r"\[(.*)\]$", line.strip())
        if m:
            cur = m.group(1)
            secs.setdefault(cur, [])
        elif cur and cur.endswith("defdict") and "=" in line:
            k, v = line.split("=", 1)
            v = [x.strip() for x in v.strip().strip("[]").split(",")]
            secs[cur].append([k.strip(), ("fitconst" if v[2] == "None" else "fitdyn") if v[0] == "True"
                              else "auxiliary" if v[1] == "auxiliary" else "const"])
    # (the sections of a configuration update those of the default)
    return [[list(x) for x in {**dict(secs.get("defdict", [])), **dict(secs[f"#config {n} defdict" if n else "defdict"])}.items()]
            for n in names]


def eqser(a, b):
    """the same values at the same times"""
    if len(a) != len(b):
        return False
    a, b = a.sort_index(), b.sort_index()
    return bool((a.index == b.index).all()) and np.allclose(np.asarray(a, float), np.asarray(b, float), rtol=1e-6, atol=1e-9,
                                                              equal_nan=True)


def sources(fit, name, funcs, rarg, rec):
    """all values a name may stand for: [(kind, converted, value)]"""
    out = []
    dbl = lambda s: [(0, s)] + ([(1, 10 * np.log10(s))] if (s > 0).all() else [])
    if name in funcs:
        out.append(("scalar" if name in SCALAR or name in rec["scalars"] else "series", 0, funcs[name](fit)))
    if name in MODEL:
        comp = components(fit)
        out += [("model", u, v) for u, v in (dbl(comp[name]) if name in comp else [])]
    res = fit.res_dict
    if name in res:
        out.append(("fitdyn", 0, fit.res_df[name]))
        out.append(("fitconst", 0, res[name][0]))
    d = fit.defdict
    if name in d and d[name][0] is False and not isinstance(d[name][1], str):
        out.append(("const", 0, d[name][1]))
    if name in fit.dataset:
        s = fit.dataset[name]
        out += [(k, 0, s) for k in ("auxiliary", "column")]
        if name == "sig":
            out += [("column", u, v) for u, v in dbl(s) if u]
        if name == "inc":
            out.append(("column", 1, s * 180 / np.pi))
    if name in rarg:
        out.append(("rarg", 0, rarg[name]))
    return out


def components(fit):
    if id(fit) not in _memo:
        _memo[id(fit)] = fit.calc_model(return_components=True)
    return _memo[id(fit)]


def matches(v, ref):
    if isinstance(ref, (pd.Series, pd.DataFrame)):
        if isinstance(ref, pd.DataFrame):
            ref = ref.iloc[:, 0]
        return isinstance(v, pd.Series) and eqser(v, ref)
    if isinstance(v, pd.Series):
        return False
    if isinstance(ref, str) or isinstance(v, str):
        return str(v) == str(ref)
    return bool(np.isclose(float(v), float(ref), rtol=1e-6, atol=1e-9, equal_nan=True))


def replay(job):
    s, seed = job
    _memo.clear()
    rng = random.Random(seed)
    with vf.silent():
        while True:
            head, cols, dB = p22.ini(rng, s["multi"])
            if "int_Q = True" not in head or s["n"] < 5:
                break
        pr = e2e.Project((head, ""), MODULE)
        try:
            return scenario(pr, s, rng, head, cols, dB)
        finally:
            pr.close()


def process(pr, s, rng, raw, ds, args, dump):
    F.reset(raw=raw, kind=["ok"] * len(raw), ds=ds, aux=[None] * len(raw), args=args)
    _, exc, hung = e2e.in_world(lambda: pr.process().run_processing(ncpu=rng.choice([1, 2]), logfile_level=None, dump_fit=dump),
                                rng.randrange(10 ** 9))
    if exc is not None or hung:
        raise RuntimeError(f"processing failed: {exc!r} {hung}")


def scenario(pr, s, rng, head, cols, dB):
    from rt1.rtresults import HDFaccessor
    from rt1.rtfits import load
    names = re.findall(r"\[#config (\w+) defdict", head) or [None]
    cfgs = list(range(1, len(names) + 1))
    defs = definitions(head, names)
    N = s["n"]
    raw = list(rng.choice(p22.RAW[:3]))
    rng.shuffle(raw)
    raw = raw[:N]
    dss = [p22.frame(rng, cols, dB, False) for _ in range(N)]
    args = [dict(ID=raw[i], num=i * 3, lat=round(rng.uniform(0, 90), 5)) for i in range(N)]
    use_dumps = s["source"] == "dumps"
    if s["source"] == "grown" and N > 1:
        # the database is the result of two runs
        k = rng.randint(1, N - 1)
        process(pr, s, rng, raw, dss, args[:k], False)
        process(pr, s, rng, raw, dss, args[:k] + args[k:] if rng.random() < .5 else args[k:], False)
    else:
        process(pr, s, rng, raw, dss, args, use_dumps)
    # the stored fits, in the order they are stored
    fits, order = {}, []
    if use_dumps:
        for i in range(N):
            fits[i] = load(pr.folder / "dumps" / f"{raw[i]}.dump")
        from rt1.rtresults import RTresults
        for p in RTresults(pr.root / "save", use_dumps=True).proc.dump_files:
            order.append(raw.index(str(p).replace("\\", "/").split("/")[-1][:-len(".dump")]))
    else:
        res = pr.results()
        with res.fit_db as db:
            for num in db.IDs.index:
                i = [label(x) for x in raw].index(db.IDs.ID[num])
                order.append(i)
                fits[i] = db.load_fit(int(num))
    if sorted(order) != list(range(N)):
        raise RuntimeError("the database is not complete")
    per = {i: [f.configs[n] for n in names] if names[0] else [f] for i, f in fits.items()}
    kinds = [dict(d) for d in defs]
    dcols = list(dss[0].columns)
    # ---- the request
    rec = dict(cfgs=[n or "default" for n in names], defs=defs, cols=dcols, rargs=["num", "lat"], dB=dB,
               comps=MODEL if "int_Q = True" in head else MODEL[:3],
               todB=s["todB"], todeg=s["todeg"], scalars=[])
    cust, req = {}, []
    pnames = sorted({n for d in kinds for n in d})
    for k in rng.sample(s["req"], len(s["req"])):
        if k in ("fitdyn", "fitconst", "const", "auxiliary"):
            c = [n for n in pnames if any(d.get(n) == k for d in kinds)]
        elif k == "model":
            c = MODEL
        elif k in ("sig", "inc"):
            c = [k]
        elif k == "column":
            c = [n for n in dcols if n not in pnames]
        elif k == "rarg":
            c = ["num", "lat"]
        elif k == "scalar":
            c = sorted(SCALAR)
        elif k == "series":
            c = sorted(SERIES)
        elif k == "override":
            c = pnames + ["sig", "inc", "tot"]
        else:
            c = ["nope", "N__", "ID2"]
        for n in rng.sample(c, min(len(c), rng.choice([1, 1, 2]))):
            if k in ("scalar", "series"):
                cust[n] = {**SCALAR, **SERIES}[n]
            elif k == "override":
                f = rng.choice(sorted(SCALAR) + sorted(SERIES))
                cust[n] = {**SCALAR, **SERIES}[f]
                if f in SCALAR:
                    rec["scalars"].append(n)
            req.append(n)
    req = list(dict.fromkeys(req))
    metrics, mspec = {}, []
    mfun = dict(spread=F.spread)
    for m in range(s["metrics"]):
        k = rng.choice(["pearson", "rmsd", "bias", "mae", "custom"])
        if k == "custom":
            metrics["spread"] = "custom"
        else:
            a, b = rng.sample(["sig", "tot", "surf", "inc"], 2)
            metrics[f"{k}_{a}_{b}"] = (rng.choice([k, k.upper(), k.capitalize()]), a, b)
    if any(v == "custom" for v in metrics.values()):
        cust["spread"] = F.spread
    if rng.random() < .3:
        cust["not_requested"] = F.n_obs
    sel = cfgs
    use = None
    if names[0] is not None and s["sel"] != "all":
        if s["sel"] == "list":
            sel = rng.sample(cfgs, len(cfgs))
            use = [names[c - 1] for c in sel]
        else:
            sel = [rng.choice(cfgs)]
            use = names[sel[0] - 1] if s["sel"] == "name" else [names[sel[0] - 1]]
    if not req and not metrics:
        req = ["sig"]
    # ---- the export
    fname = rng.choice(["res_1", "x", "out_b"])
    path = pr.root / "elsewhere" / (fname + ".h5") if s["path"] == "path" else \
        pr.folder / "results" / (("out" if s["path"] == "default" else fname) + ".h5")
    if s["path"] == "path":
        path.parent.mkdir()
    where = dict(savepath=path) if s["path"] == "path" else {} if s["path"] == "default" else dict(finalout_name=fname + ".h5")
    want = order
    runs = []
    limit = s["limit"] if s["limit"] else None
    if limit:
        want = order[:limit]
    runs.append(limit)
    if s["again"] == "same":
        runs.append(limit)
    elif s["again"] == "more":
        runs.append(None)
        want = order
    proc = pr.process()
    chunk = rng.choice([None, 1, 2, 50])
    asked_req, asked_metrics = list(req), dict(metrics)
    for lim in runs:
        if rng.random() < .4:
            proc = pr.process()
        kw = dict(parameters=list(req) or None, metrics=metrics or None, export_functions=cust or None, use_config=use, use_nfiles=lim,
                  ncpu=s["ncpu"], sig_to_dB=s["todB"], inc_to_degree=s["todeg"], pre_evaluate_fn_coefs=s["coefs"],
                  create_index=s["index"], logfile_level=None, print_progress=rng.random() < .5, use_dumps=use_dumps, **where)
        if chunk:
            kw["write_chunk_size"] = chunk
        given = kw["parameters"]
        _, exc, hung = e2e.in_world(lambda: proc.export_data_to_HDF(**kw), rng.randrange(10 ** 9))
        if hung or exc is not None:
            return rec, f"export failed: {exc!r} {'(hung)' if hung else ''}\n{(e2e.in_world.tb or '')[-400:]}", kw_note(kw)
        if (given or []) != asked_req or metrics != asked_metrics:
            return rec, f"the request of the caller was changed: {given} {metrics}", kw_note(kw)
    # ---- what the file holds
    data = HDFaccessor(path, set_ID=True) if s["path"] == "path" else pr.results().load_hdf(path.stem)
    with data:
        labs = {int(n): str(x) for n, x in zip(data.IDs.index, data.IDs.ID)}
        keys = [k.strip("/") for k in data.keys()] if callable(getattr(data, "keys", None)) else None
        rdf = None
        tabs = {}
        for c in cfgs + [len(cfgs) + 1]:
            nm = rec["cfgs"][c - 1] if c <= len(cfgs) else "default"
            g = getattr(data.datasets, nm, None)
            if g is None or (c > len(cfgs) and names[0] is None):
                continue
            tabs[c] = {t: getattr(g, t) for t in ("dynamic", "static", "metrics") if hasattr(g, t)}
        flabs = [label(x) for x in raw]
        num = {}
        found = []
        for n, x in labs.items():
            found.append(flabs.index(x) + 1 if x in flabs else -1)
            if x in flabs:
                num[flabs.index(x)] = n
        if len(set(labs.values())) != len(labs):
            return rec, f"duplicate IDs {labs}", kw_note(kw)
        rec.update(found=sorted(found), want=[i + 1 for i in want], tables=sorted(tabs), sel=sel, req=req, cust=[],
                   metrics=list(metrics), cells=[], extra=[], mcells=[], rarg=[])
        rec["cust"] = [[n, "scalar" if n in rec["scalars"] or n in SCALAR and n not in SERIES else "series"]
                       for n in cust if n in req]
        for i in want:
            if i not in num:
                continue
            ra = data.reader_arg.get_id(num[i]) if hasattr(data, "reader_arg") else data.datasets.reader_arg.get_id(num[i])
            ra = ra.iloc[0] if isinstance(ra, pd.DataFrame) and len(ra) == 1 else None
            own = next((j + 1 for j in range(N) if ra is not None and all(k in ra and matches(ra[k], v) for k, v in args[j].items() if k != "ID")), -1)
            rec["rarg"].append([i + 1, own])
            for c, t in tabs.items():
                df = {k: t[k].get_id(num[i]) for k in t}
                extra = [x for k in ("dynamic", "static") if k in df for x in df[k].columns if x not in req]
                extra += [x for x in (df["metrics"].columns if "metrics" in df else []) if x not in metrics]
                if "dynamic" in df and len(df["dynamic"]) != len(dss[i]):
                    extra.append(f"{len(df['dynamic'])} rows instead of {len(dss[i])}")
                for k in ("static", "metrics"):
                    if k in df and len(df[k]) != 1:
                        extra.append(f"{len(df[k])} rows in {k}")
                if extra:
                    rec["extra"].append([c, i + 1, extra])
                if c not in sel:
                    continue
                for n in req:
                    wh = [k for k in ("dynamic", "static") if k in df and n in df[k].columns]
                    v = None
                    if len(wh) == 1 and len(df[wh[0]]):
                        v = df[wh[0]][n]
                        if wh[0] == "static":
                            v = v.iloc[0]
                        else:
                            v = pd.Series(v.values, index=v.index.get_level_values("date") if isinstance(v.index, pd.MultiIndex) else v.index)
                    cand = []
                    if v is not None:
                        for j in per:
                            for d, ff in enumerate(per[j]):
                                for kd, u, ref in sources(ff, n, {k: f for k, f in cust.items() if k in req}, args[j], rec):
                                    if matches(v, ref):
                                        cand.append([j + 1, d + 1, kd, u])
                    rec["cells"].append(dict(c=c, f=i + 1, name=n, where=wh, cand=cand))
                for m in metrics:
                    there = "metrics" in df and m in df["metrics"].columns and len(df["metrics"]) == 1
                    cand = []
                    if there:
                        v = float(df["metrics"][m].iloc[0])
                        for j in per:
                            for d, ff in enumerate(per[j]):
                                for m2, sp in metrics.items():
                                    if matches(v, metric_value(ff, sp, cust.get(m2))):
                                        cand.append([j + 1, d + 1, m2])
                    rec["mcells"].append(dict(c=c, f=i + 1, name=m, where="metrics" if there else "none", cand=cand))
    return rec, None, kw_note(kw)


def metric_value(fit, sp, func):
    if sp == "custom":
        return func(fit)
    k = (id(fit), sp)
    if k not in _memo:
        comp = components(fit)
        val = lambda n: (comp[n] if n in MODEL else fit.dataset[n]).sort_index()
        _memo[k] = own_metric(sp[0].lower(), val(sp[1]), val(sp[2]))
    return _memo[k]


def kw_note(kw):
    return {k: (sorted(v) if k == "export_functions" and v else str(v)) for k, v in kw.items()}


def run(ctx):
    cfg = ("INIT Init\nNEXT Next\nCONSTANTS N = %d W = %d Design = \"%s\"\nINVARIANTS Sound Complete One\n")
    for a in [(2, 2, "ok")] + ([] if not ctx.thorough else [(3, 2, "ok")]):
        ctx.tlc("Export", cfg_text=cfg % a, deadlock=False)
    for d in ("sharedset", "posid", "firstdefs", "firstfit", "twice", "allcfgs"):
        if "violated" not in ctx.tlc("Export", cfg_text=cfg % (2, 1 if d != "posid" else 2, d), deadlock=False, expect_error=True, count=False):
            raise RuntimeError(f"the specification does not tell the design {d!r} apart")
    rng = random.Random(ctx.seed)
    jobs = []
    for n, num in [(3, ctx.pick(45, 400)), (7, ctx.pick(30, 250)), (12, ctx.pick(12, 100))]:
        out = ctx.tlc("ExportGen", cfg_text=f"INIT GInit\nNEXT GNext\nCONSTANTS MaxN = {n}\nINVARIANT Emit\n", simulate=num, depth=3,
                      workers=1, deadlock=False, count=False)
        jobs += [(h, rng.randrange(10 ** 9)) for h in vf.printed(out)]
    rng.shuffle(jobs)
    recs, idx = [], []
    kinds = set()
    res = vf.pmap(replay, jobs, timeout=240, total=ctx.pick(350, 700))
    for j, (job, r) in enumerate(zip(jobs, res)):
        if r is None:
            continue
        ctx.case(job[0])
        if isinstance(r, vf.Err):
            ctx.violation("scenario-exception", r.text, dict(job=job))
            continue
        ctx.trace()
        rec, bad, note = r
        if bad:
            ctx.violation("export-" + re.sub(r"[^a-z]+", "-", re.sub(r"\(.*?\)|\d+|\[.*|\{.*", "", bad.split("\n")[0]).lower())[:60].strip("-"),
                          bad + " :: " + str(note)[:500], dict(job=job, note=note))
        else:
            kinds |= {k for c in rec["cells"] for k in c["where"]}
            recs.append(rec)
            idx.append((j, note))
    if not recs and not ctx.violations:
        raise RuntimeError("no scenario was completed")
    if recs:
        for f in ctx.validate("ExportTrace", recs, "INIT Init\nNEXT Next\n", shards=4):
            rec = recs[f[0] - 1]
            j, note = idx[f[0] - 1]
            ctx.violation("export-" + re.sub(r"[^a-z]+", "-", f[1].lower()),
                          f"{f[1]}: {note} found {rec['found']} want {rec['want']} tables {rec['tables']} extra {rec['extra'][:3]} "
                          f"cells {[c for c in rec['cells'] if not c['cand']][:4]} {[c for c in rec['mcells'] if not c['cand']][:3]}"[:1200],
                          dict(job=jobs[j], rec=rec, note=note))
    ctx.rule = "an export holds one value per fit, requested configuration and requested name: that of the fit itself, in the requested unit"
    ctx.extra.update(scenarios=len(recs), tables=sorted(kinds), cells=sum(len(r["cells"]) + len(r["mcells"]) for r in recs))
    if recs:
        ctx.sample({k: v for k, v in recs[0].items() if k not in ("cells", "mcells")})
