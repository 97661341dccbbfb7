"""P07: histories of assigning, reading, evaluating, fitting and copying fit objects (FitCache.tla)."""
import copy
import os
import random
import tempfile

import numpy as np

import vf

LEVEL = "model_checking"
NV = dict(ds=5, dd=6, sv=5, sig0=2, dB=2)
PARAMS = ["omega", "tau", "t", "NormBRDF"]
# quantities of the real object that belong to a quantity of the specification
READS = dict(groups=["param_dyn_dict", "param_dyn_df"],
             layout=["index", "inc", "data", "mask", "data_weights", "meandatetimes", "meandatetimes_group", "dataset"],
             interp=["interp_vals"], fixed=["fixed_dict"], objects=["V", "SRF", "defs"],
             symbols=["model_definition", "set_model"], inter=["inter"], model=["calc_model", "calc", "total"])
FITREADS = ["res_dict", "res_df", "metric", "fitmodel", "res_df_group"]


def versions(seed):
    import pandas as pd
    from fitmodels import AS, AV
    rng = random.Random(seed)
    ds = []
    for n, step in rng.sample([(4, "24h"), (6, "30h"), (5, "49h"), (7, "12h"), (3, "100h")], NV["ds"] - 1):
        t = pd.date_range("2020-02-25 03:00", periods=n, freq=step)
        df = pd.DataFrame(dict(inc=[round(.2 + .6 * rng.random(), 4) for _ in range(n)],
                               sig=[round(.05 + .2 * rng.random(), 4) for _ in range(n)],
                               tau_dyn=[rng.choice([1, 2]) for _ in range(n)],
                               N_dyn=[rng.choice([3, 4]) for _ in range(n)],
                               t=[round(.1 + .3 * rng.random(), 4) for _ in range(n)],
                               NormBRDF=[round(.1 + .3 * rng.random(), 4) for _ in range(n)],
                               omega=[round(.1 + .3 * rng.random(), 4) for _ in range(n)],
                               tau_start=[round(.1 + .3 * rng.random(), 4) for _ in range(n)]), index=t)
        if rng.random() < .5:
            df["data_weights"] = [round(.5 + rng.random(), 3) for _ in range(n)]
        if rng.random() < .4:
            df = df.iloc[rng.sample(range(n), n)]
        ds.append(df)
    # the last one has the layout of the first one at other times; groups need not follow each other in time
    n = len(ds[0])
    ds[0]["tau_dyn"] = [[2, 1, 2][i % 3] if seed % 2 else rng.choice([1, 2]) for i in range(n)]
    near = ds[0].copy()
    near.index = near.index + pd.to_timedelta([rng.choice([0, 1, 2, 5]) for _ in range(n)], "h")
    if rng.random() < .5:
        near["inc"], near["sig"] = [v + .01 for v in near["inc"]], [v * 1.1 for v in near["sig"]]
    ds.append(near)
    b = lambda lo, hi: ([lo], [hi])
    fr = lambda: rng.choice([None, "2D", "2", "3D", "index"])
    dd = [dict(omega=[True, .3, None, b(.01, .5)], tau=[True, .25, fr(), b(.01, .9)], t=[True, .2, None, b(.01, .5)],
               NormBRDF=[False, .2]),
          dict(tau=[True, "auxiliary", "manual", b(.01, .9)], NormBRDF=[True, .3, "2D", b(.01, .8)], t=[False, .25],
               omega=[False, "auxiliary"]),
          dict(t=[True, .2, rng.choice(["index", "2", "2D"]), b(.02, .6), True], omega=[True, .3, "2", b(.01, .5)], tau=[False, .4],
               NormBRDF=[False, "auxiliary"]),
          dict(NormBRDF=[False, "auxiliary"], t=[False, "auxiliary"], tau=[True, .3, fr(), b(.01, .8)],
               omega=[True, .2, None, b(.02, .4)], bsf=[False, .3]),
          dict(bsf=[True, .2, None, b(.01, .7)], omega=[False, .3], NormBRDF=[True, .3, fr(), b(.01, .8)], t=[False, .3],
               tau=[True, .3, rng.choice(["index", "manual", "manual"]), b(.01, .8), True]),
          dict(omega=[True, .22, None, b(.02, .45)], tau=[True, .25, "2D", b(.02, .85)], t=[True, .2, None, b(.02, .5)],
               NormBRDF=[False, .35])]
    V = lambda **k: dict(V_name=k.pop("n"), **k)

    def call(omega, tau, t, NormBRDF, **kw):
        from rt1 import surface, volume
        return (volume.HGRayleigh(omega=omega, tau=tau, t=t, ncoefs=2),
                surface.HG_nadirnorm(t=0.3, ncoefs=2, a=AS, NormBRDF=NormBRDF))
    ra = dict(V_name="Rayleigh", tau="tau", omega="omega")
    sv = [dict(V_props=dict(ra), SRF_props=dict(SRF_name="HG_nadirnorm", t="t", ncoefs=2, NormBRDF="NormBRDF", a=list(AS))),
          dict(V_props=dict(V_name="HenyeyGreenstein", tau="tau", omega="omega", t="t", ncoefs=2, a=list(AV)),
               SRF_props=dict(SRF_name="CosineLobe", i=2, ncoefs=2, NormBRDF="NormBRDF", a=list(AS))),
          dict(V_props=dict(V_name="Rayleigh", tau="tau * t + 0.1", omega="omega / 2"),
               SRF_props=dict(SRF_name="CosineLobe", i=3, ncoefs=2, NormBRDF="NormBRDF", a=list(AS))),
          dict(V_props=dict(V_name="LinCombV", tau="tau", omega="omega",
                            Vchoices=[["t", dict(V_name="Rayleigh")], [.4, dict(V_name="HGRayleigh", t=.2, ncoefs=2)]]),
               SRF_props=dict(SRF_name="Isotropic", NormBRDF="NormBRDF")), call]
    return dict(ds=ds, dd=dd, sv=sv, sig0=[False, True], dB=[False, True])


def norm(x):
    """comparable nested lists"""
    import pandas as pd
    if isinstance(x, pd.DataFrame):
        return ["frame", norm(x.index), [str(c) for c in x.columns], [norm(x[c].values) for c in x.columns]]
    if isinstance(x, pd.Series):
        return ["series", norm(x.index), norm(x.values)]
    if isinstance(x, (pd.DatetimeIndex, pd.Index)):
        return [str(v) for v in x]
    if isinstance(x, np.ma.MaskedArray):
        return [norm(np.ma.getdata(x)[~np.ma.getmaskarray(x)]), norm(np.ma.getmaskarray(x))]
    if isinstance(x, np.ndarray):
        return [norm(v) for v in x]
    if isinstance(x, dict):
        return [[str(k), norm(v)] for k, v in x.items()]
    if isinstance(x, (list, tuple)):
        return [norm(v) for v in x]
    if isinstance(x, (bool, np.bool_)):
        return bool(x)
    if isinstance(x, (int, float, np.integer, np.floating)):
        return float(x)
    return str(x)


def same(a, b):
    if isinstance(a, list) and isinstance(b, list):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, float) and isinstance(b, float):
        return a == b or (a != a and b != b) or abs(a - b) <= 1e-9 + 1e-8 * abs(b)
    return type(a) is type(b) and a == b


def build(vs, cur, kw, ID="x"):
    import fitcommon as F
    d = vs["dd"][cur["dd"] - 1]
    return F.Fits(sig0=vs["sig0"][cur["sig0"] - 1], dB=vs["dB"][cur["dB"] - 1], dataset=vs["ds"][cur["ds"] - 1].copy(),
                  defdict=copy.deepcopy(d), set_V_SRF=copy.deepcopy(vs["sv"][cur["sv"] - 1]), lsq_kwargs=dict(kw["lsq"]),
                  int_Q=kw["int_Q"], ID=ID)


def given(vs, cur, table):
    """parameter values for calc_model: one per group (table: number of groups)"""
    rng = random.Random(5)
    d = vs["dd"][cur["dd"] - 1]
    g = {p: [round(.15 + .2 * rng.random(), 3) for _ in range(table[cur["ds"], cur["dd"]][p])]
         for p, v in d.items() if v[0]}
    return g


def ask(f, what, vs, cur, table):
    """the answer; a refusal is an answer that a newly created object has to give as well"""
    try:
        return answer(f, what, vs, cur, table)
    except Exception as e:
        return ("raised", type(e).__name__)


def refit(f):
    try:
        f.performfit()
        return "fit"
    except Exception as e:
        return ("raised", type(e).__name__)


def answer(f, what, vs, cur, table):
    d = vs["dd"][cur["dd"] - 1]
    if what in ("V", "SRF"):
        # (the numeric values of the last evaluation are kept in these objects)
        d = getattr(f, what)
        return norm([type(d).__name__, str(d._func), {k: v for k, v in d.init_dict.items()
                                                      if k not in ("omega", "tau", "NormBRDF")}])
    if what == "set_model":
        f.set_model()
        return None
    if what == "defs":
        s = f.set_V_SRF if isinstance(f.set_V_SRF, dict) else "callable"
        return norm([f.defdict.to_dict(), s, f.lsq_kwargs, f.sig0, f.dB, f.int_Q])
    if what == "calc_model":
        return norm(f.calc_model(res_dict=given(vs, cur, table), return_components=True))
    if what == "total":
        return norm(f.calc_model(res_dict={k: v for k, v in reversed(list(given(vs, cur, table).items()))}))
    if what == "inter":
        return norm(f.calc_model(res_dict=given(vs, cur, table), return_components=True))
    if what == "calc":
        g = {p: [v[0]] for p, v in given(vs, cur, table).items()}
        fx = {p: [.21] for p, v in d.items() if not v[0] and v[1] == "auxiliary"}
        return norm(f.calc(g, np.array([.3, .4, .5]), fixed_param=fx or None))
    if what == "metric":
        p = next(iter(f.res_dict))
        return norm([f.metric.sig.tot.rmsd, f.metric.tot.sig.bias, f.metric.surf.vol.mae, getattr(f.metric.inc, p if hasattr(f.metric.inc, p) else p + "__res_df").bias])
    if what == "fitmodel":
        return norm(f.calc_model(return_components=True))
    if what == "res_dict":
        return norm({k: list(v) for k, v in f.res_dict.items()})
    return norm(getattr(f, what))


def poison(f):
    """alter everything mutable the object holds as its definition, in place"""
    for k in list(f.defdict.keys()):
        v = f.defdict[k]
        try:
            if v[0] is True:
                v.val.bounds[0][0] = .111 if hasattr(v, "val") else None
        except Exception:
            pass
        setattr(f.defdict, k, [False, .123])
    def wreck(x):
        if isinstance(x, dict):
            for k in list(x):
                wreck(x[k])
                if not isinstance(x[k], (dict, list)):
                    x[k] = "spoiled"
            x["more"] = 1
        elif isinstance(x, list):
            for v in x:
                wreck(v)
            x.append("spoiled")
    if isinstance(f.set_V_SRF, dict):
        wreck(f.set_V_SRF)
    wreck(f.lsq_kwargs)


def replay(job):
    hist, seed, singles, shared, int_Q = job
    import cloudpickle
    import fitcommon as F
    rng = random.Random(seed)
    vs = versions(seed)
    kw = dict(lsq=dict(max_nfev=rng.choice([2, 3])), int_Q=int_Q)
    first = dict(ds=1, dd=1, sv=1, sig0=1, dB=1)
    # number of groups per dataset and definition (from new objects; nothing has been evaluated before)
    table, obs, unfit = {}, [], set()
    with vf.silent():
        for d in range(1, NV["ds"] + 1):
            for q in range(1, NV["dd"] + 1):
                g = build(vs, dict(first, ds=d, dd=q), kw).param_dyn_dict
                table[d, q] = {p: len({str(x) for x in v}) for p, v in g.items()}
        F.Fits()._clear_cache()
        objs = {o: build(vs, first, kw, f"o{o}") for o in singles}
        mf = None
        if shared:
            mf = F.MultiFits(dataset=vs["ds"][0].copy())
            for o in shared:
                mf.add_config(f"c{o}", build(vs, first, kw, f"o{o}"))
                objs[o] = getattr(mf.configs, f"c{o}")
        for n, e in enumerate(hist):
            op = e["op"]
            if op == "assign":
                f, v = e["f"], copy.deepcopy(vs[e["f"]][e["v"] - 1])
                name = dict(dd="defdict", ds="dataset", sv="set_V_SRF").get(f, f)
                if f == "dd" and rng.random() < .3:
                    v = build(vs, dict(first, dd=e["v"]), kw).defdict
                setattr(objs[e["o"]], name, v)
            elif op == "replace":
                mf.set_dataset(vs["ds"][e["v"] - 1].copy())
            elif op == "poison":
                poison(objs.pop(e["o"]))
                for o, cur in (e["others"].items() if isinstance(e["others"], dict) else enumerate(e["others"], 1)):
                    if int(o) in objs:
                        obs.append((n, "defs", cur, ask(objs[int(o)], "defs", vs, cur, table)))
            elif op == "copy":
                o = objs[e["o"]]
                if e["how"] == "deepcopy":
                    new = copy.deepcopy(o)
                elif e["how"] == "dump":
                    p = tempfile.mktemp(dir=tempfile.gettempdir(), prefix="vf_p07_")
                    o.dump(p, mini=rng.random() < .5)
                    with open(p, "rb") as fh:
                        new = cloudpickle.load(fh)
                    os.unlink(p)
                else:
                    name = dict(dd="defdict", ds="dataset", sv="set_V_SRF").get(e["f"], e["f"])
                    new = o.reinit_object(**{name: copy.deepcopy(vs[e["f"]][e["v"] - 1])})
                objs[e["p"]] = new
                unfit.discard(e["p"])
                if e["o"] in unfit:
                    unfit.add(e["p"])
            elif op == "fit":
                r = refit(objs[e["o"]])
                obs.append((n, "fit", e["cur"], r))
                if r == "fit":
                    unfit.discard(e["o"])
                else:
                    unfit.add(e["o"])
                for w in FITREADS if r == "fit" else []:
                    obs.append((n, w, e["cur"], ask(objs[e["o"]], w, vs, e["cur"], table)))
            elif op == "readfit":
                for w in rng.sample(FITREADS, 3) if e["o"] not in unfit else []:
                    obs.append((n, w, e["cur"], ask(objs[e["o"]], w, vs, e["cur"], table)))
            elif op == "read":
                for w in READS[e["q"]]:
                    obs.append((n, w, e["cur"], ask(objs[e["o"]], w, vs, e["cur"], table)))
        # what newly created objects answer
        ref, bad = {}, []
        for n, w, cur, got in obs:
            k = (w, tuple(sorted(cur.items())))
            if k not in ref:
                g = build(vs, cur, kw)
                if w == "fit":
                    ref[k] = refit(g)
                else:
                    r = refit(g) if w in FITREADS else "fit"
                    ref[k] = ask(g, w, vs, cur, table) if r == "fit" else r
            if not same(got, ref[k]):
                bad.append((w, n, got, ref[k]))
                break
    return bad, len(obs)


def run(ctx):
    base = """SPECIFICATION Spec
CONSTANTS Obj = {1, 2}
 Shared = %s
 Vers <- V2
 Fields = %s
 Trigger = %s
 Forget = %s
 Fan = %s
 L = 1
 Hist = FALSE
VIEW View
INVARIANT NoStale SharedData
"""
    allf, tr, fg = '{"ds", "dd", "sv", "unit"}', '{"ds", "dd", "sv"}', '{"dd", "sv"}'
    ctx.tlc("FitCacheMC", cfg_text=base % ("{1, 2}", ctx.pick(tr, allf), tr, fg, "TRUE"), deadlock=False)
    ctx.tlc("FitCacheMC", cfg_text=base % ("{}", ctx.pick(tr, allf), tr, fg, "TRUE"), deadlock=False)
    # the invariant is sensitive: forgetting to drop what was kept is found for every field
    for sh, t, g, fan in [("{}", '{"ds", "dd"}', fg, "TRUE"), ("{}", '{"ds", "sv"}', fg, "TRUE"),
                          ("{}", '{"dd", "sv"}', fg, "TRUE"), ("{}", tr, '{"sv"}', "TRUE"), ("{}", tr, '{"dd"}', "TRUE"),
                          ("{1, 2}", tr, fg, "FALSE")][:ctx.pick(2, 6)]:
        out = ctx.tlc("FitCacheMC", cfg_text=base % (sh, tr, t, g, fan), deadlock=False, expect_error=True, count=False)
        if "NoStale is violated" not in out:
            raise RuntimeError("FitCache.tla accepts stale values")
    sim = """SPECIFICATION %s
CONSTANTS Obj = %s
 Shared = %s
 Vers <- VN
 Fields = {"ds", "dd", "sv", "sig0", "dB"}
 Trigger = {"ds", "dd", "sv", "sig0", "dB"}
 Forget = {"dd", "sv"}
 Fan = TRUE
 L = %d
 Hist = TRUE
INVARIANT NoStale SharedData
"""
    jobs = []
    rng = random.Random(ctx.seed)
    for obj, shared, L, spec in [((1, 2), (), 9, "SimSpec"), ((1, 2, 3), (2, 3), 14, "SimSpec"),
                                 ((1, 2), (1, 2), 11, "SimSpec"), ((1,), (), 8, "SimSpec"), ((1,), (), 8, "NearSpec"),
                                 ((1, 2), (1, 2), 9, "NearSpec")]:
        s = lambda x: "{" + ", ".join(map(str, x)) + "}"
        out = ctx.tlc("FitCacheMC", cfg_text=sim % (spec, s(obj), s(shared), L), deadlock=False, simulate=ctx.pick(20, 120),
                      depth=L + 3, seed=ctx.seed + L)
        hists = vf.printed(out)
        for h in hists:
            jobs.append((h, rng.randrange(10 ** 9), [o for o in obj if o not in shared], list(shared), rng.random() < .35))
    jobs.sort(key=lambda j: str(j[1]))
    total = 0
    for job, r in zip(jobs, vf.pmap(replay, jobs, timeout=240, total=ctx.pick(130, 650))):
        if r is None:
            continue
        if isinstance(r, vf.Err):
            ctx.violation("raises", r.text[-900:], job)
            continue
        ctx.trace()
        total += r[1]
        ctx.case([job[0], job[4]])
        ctx.sample([(e["op"], e.get("o"), e.get("f") or e.get("q") or "") for e in job[0]][:8])
        for w, n, got, want in r[0]:
            ctx.violation(f"stale-{w}", f"step {n} of {[(e['op'], e.get('o'), e.get('f') or e.get('q')) for e in job[0]]}: "
                          f"{w} is {str(got)[:250]}, a new object with this definition gives {str(want)[:250]}", job)
    ctx.extra["answers_compared"] = total
    ctx.rule = ("histories of assigning, replacing, reading, evaluating, fitting, copying and altering copies generated by TLC "
                "from FitCache.tla; every answer compared with a newly created object of the definition the model names")
