"""P21: histories of multi-configuration objects (Multi.tla) replayed on real MultiFits."""
import copy
import random

import numpy as np

import vf
from p07 import norm, same

LEVEL = "model_checking"
IDS = ["site_a", "site_b", "7", "x y"]


def world(seed):
    import pandas as pd
    rng = random.Random(seed)
    ds = [None]
    for n in (3, 4, 2, 5):
        t = pd.date_range("2021-05-03", periods=n, freq="2D")
        df = pd.DataFrame(dict(inc=[round(.2 + .6 * rng.random(), 4) for _ in range(n)],
                               sig=[round(.05 + .2 * rng.random(), 4) for _ in range(n)]), index=t)
        ds.append(df.iloc[::-1] if rng.random() < .3 else df)
    b = ([.01], [.6])
    dd = [dict(omega=[True, .3, None, b], tau=[True, .25, "index", b], N=[False, .2]),
          dict(tau=[True, .2, None, b], omega=[False, .3], N=[True, .3, "2D", b]),
          dict(N=[True, .3, "2", b], tau=[False, .4], omega=[True, .2, None, b])]
    return ds, dd


def new_fit(ds, dd, d, ID, **k):
    import fitcommon as F
    sv = dict(V_props=dict(V_name="Rayleigh", tau="tau", omega="omega"),
              SRF_props=dict(SRF_name="Isotropic", NormBRDF="N"))
    return F.Fits(sig0=True, dB=False, dataset=k.get("data"), defdict=copy.deepcopy(dd[d - 1]), set_V_SRF=sv,
                  lsq_kwargs=dict(max_nfev=3), int_Q=False, ID=ID)


def replay(job):
    hist, seed = job
    import fitcommon as F
    import rt1.rtfits
    rng = random.Random(seed)
    ds, dd = world(seed)
    aux = [None, {"a": 1}, {"b": [2, 3]}, "text"]
    ra = [None, dict(gpi=1), dict(gpi=2, lon=3.), dict(name="s")]
    memo = {}

    def oracle(d, v):
        if (d, v) not in memo:
            f = new_fit(ds, dd, d, "o", data=ds[v].copy())
            f.performfit()
            memo[d, v] = {k: [float(x) for x in w] for k, w in f.res_dict.items()}
        return memo[d, v]
    where, pending = "", []

    def eq(what, got, want):
        if not same(norm(got), norm(want)):
            raise Wrong(what, f"{where}: {what} is {str(got)[:300]} instead of {str(want)[:300]}")

    def ident(what, got, want):
        if got is not want and not same(norm(got), norm(want)):
            raise Wrong(what, f"{where}: {what} is {str(got)[:200]} instead of {str(want)[:200]}")

    def inspect(k, m, exp):
        names = exp["names"]
        eq("config_names", list(m.config_names), names)
        eq("iteration over the configurations", [f.config_name for f in m.configs], names)
        eq("accessor.config_fits", list(m.accessor.config_fits), names)
        s = exp["shared"]
        eq("dataset", m.dataset, srt(ds[s["ds"]]))
        ident("aux_data", m.aux_data, aux[s["aux"]])
        ident("reader_arg", m.reader_arg or None, ra[s["ra"]])
        if names:
            eq("ID", m.ID, raw(IDS[s["id"] - 1]))
        for i, (n, c) in enumerate(zip(names, exp["cfgs"])):
            f = getattr(m.configs, n)
            for other, how in ((m.configs[n], "item"), (m.configs[i], "number"), (list(m.configs)[i], "iteration")):
                if other is not f:
                    raise Wrong("config", f"{where}: access of {n} by {how} gives another configuration")
            eq(f"dataset of a configuration", f.dataset, srt(ds[c["ds"]]))
            ident("aux_data of a configuration", getattr(f, "aux_data", "(missing)"), aux[c["aux"]])
            ident("reader_arg of a configuration", getattr(f, "reader_arg", "(missing)") or None, ra[c["ra"]])
            eq("ID of a configuration", f.ID, raw(IDS[c["id"] - 1]))
            eq("definition of a configuration", list(f.defdict.to_dict().items()),
               list(new_fit(ds, dd, c["d"], "q").defdict.to_dict().items()))
            if c["fit"]:
                eq("result of a configuration", {p: list(v) for p, v in f.res_dict.items()}, oracle(*c["fit"]))
            elif hasattr(f, "res_dict"):
                raise Wrong("result", f"{where}: configuration {n} has a result although it was not fitted")

    def quantity(rng):
        return rng.choice(["interp_vals", "fixed_dict", "param_dyn_dict", "inc", "sig0", "index", "lsq_kwargs"])

    with vf.silent():
        try:
            m = {}
            for k in sorted(hist[0]["after"] if isinstance(hist[0]["after"], dict) else range(1, len(hist[0]["after"]) + 1)):
                m[int(k)] = F.MultiFits(dataset=ds[1].copy())
            for step, h in enumerate(hist):
                e, op = h["e"], h["e"]["op"]
                where = f"after step {step + 1} of {[tuple(x['e'].values()) for x in hist[:step + 1]]}"
                c = m[e["k"]]
                if op == "add":
                    c.add_config(e["n"], new_fit(ds, dd, e["d"], IDS[e["i"] - 1],
                                                 data=rng.choice([None, ds[2].copy(), ds[1].copy()])))
                elif op == "set":
                    v = e["v"]
                    if e["f"] == "ds":
                        c.set_dataset(ds[v].copy())
                    elif e["f"] == "aux":
                        c.set_aux_data(aux[v])
                    elif e["f"] == "ra":
                        c.set_reader_arg({} if v == 0 else ra[v])
                    else:
                        c.set_ID(IDS[v - 1])
                elif op == "define":
                    getattr(c.configs, e["n"]).defdict = copy.deepcopy(dd[e["d"] - 1])
                elif op == "fit":
                    w, sel = e["way"], e["sel"]
                    run = lambda fit: fit.performfit()
                    if w == "all":
                        r = list(c.apply(run))
                        eq("result of apply", [x[0] for x in r], sel)
                    elif w == "str":
                        r = list(c.apply(run, use_config=sel[0]))
                        eq("result of apply", [x[0] for x in r], sel)
                    elif w == "list":
                        q = list(sel)
                        rng.shuffle(q)
                        r = list(c.apply(run, use_config=q))
                        eq("result of apply", sorted(x[0] for x in r), sorted(q))
                    elif w == "accessor":
                        cb = c.accessor.performfit(print_progress=False)
                        eq("callbacks", list(cb), sel)
                        for n in rng.sample(sel, len(sel)):
                            cb[n]()
                    else:
                        for n in sel:
                            getattr(c.configs, n).performfit()
                elif op == "access":
                    w, sel = e["way"], e["sel"]
                    q = quantity(rng)
                    want = [[n, getattr(getattr(c.configs, n), q)] for n in sel]
                    if w == "accessor":
                        eq(f"accessor.{q}", [[n, v] for n, v in getattr(c.accessor, q).items()], want)
                    elif w in ("call", "callpos"):
                        par = {n: {p: [.2] for p, v in getattr(c.configs, n).defdict.to_dict().items() if v[0]} for n in sel}
                        every = {p: [.2] for p in ("omega", "tau", "N")}
                        inc, inc2 = np.array([.3, .5]), np.array([.4])
                        rc = rng.random() < .5
                        cb = (c.accessor.calc(every, inc, rc) if w == "callpos" else
                              c.accessor.calc(param=every, inc=inc, return_components=rc))
                        eq("callbacks", list(cb), sel)
                        want = {n: getattr(c.configs, n).calc(every, inc, rc) for n in sel}
                        for n in rng.sample(sel, len(sel)):
                            eq("value of a callback", cb[n](), want[n])
                        n = rng.choice(sel)
                        f = getattr(c.configs, n)
                        ev2 = {p: [.3] for p in every}
                        if w == "callpos":
                            eq("value of a callback with other arguments", cb[n](ev2, inc2), f.calc(ev2, inc2, rc))
                            eq("value of a callback with another argument", cb[n](ev2), f.calc(ev2, inc, rc))
                        else:
                            eq("value of a callback with other arguments", cb[n](inc=inc2), f.calc(every, inc2, rc))
                            eq("value of a callback with other arguments", cb[n](return_components=not rc),
                               f.calc(every, inc, not rc))
                        for n in sel:
                            eq("value of a callback after other calls", cb[n](), want[n])
                    else:
                        use = None if w == "all" else sel[0] if w == "str" else list(sel)
                        r = list(c.apply(lambda fit, add=0: [getattr(fit, q), add], use_config=use, add=step))
                        eq("result of apply", [[n, v] for n, v in r], [[n, [v, step]] for n, v in want])
                for k in m:
                    inspect(k, m[k], h["after"][str(k)] if isinstance(h["after"], dict) else h["after"][k - 1])
        except Wrong as w:
            return [w.args]
    return []


def srt(df):
    return df if df is None or df.index.is_monotonic_increasing else df.sort_index()


def raw(i):
    return i if i.isidentifier() else f"RT1_{i}"


class Wrong(Exception):
    pass


def run(ctx):
    cfg = """SPECIFICATION %s
CONSTANTS Cont = %s
 Names = {"a", "b"%s}
 NDef = %d
 NData = %d
 L = %d
 Hist = %s
 Gets = %s
INVARIANTS SameData Unique
%s
"""
    gets = '{"ds", "aux", "ra", "id"}'
    props = "PROPERTIES Apart Stable"
    ctx.tlc("Multi", cfg_text=cfg % ("Spec", "{1}", ctx.pick("", ', "c"'), 2, 2, 1, "FALSE", gets, props), deadlock=False)
    if ctx.thorough:
        ctx.tlc("Multi", cfg_text=cfg % ("Spec", "{1, 2}", "", 1, 1, 1, "FALSE", gets, props), deadlock=False)
    for g in ('{"ds", "aux", "id"}', '{"ds", "aux", "ra"}'):
        out = ctx.tlc("Multi", cfg_text=cfg % ("Spec", "{1}", "", 2, 2, 1, "FALSE", g, ""), deadlock=False, expect_error=True, count=False)
        if "SameData is violated" not in out:
            raise RuntimeError("Multi.tla does not notice configurations with other data")
    rng = random.Random(ctx.seed)
    jobs = []
    for cont, L in (("{1}", 9), ("{1, 2}", 14), ("{1}", 16)):
        out = ctx.tlc("Multi", cfg_text=cfg % ("SimSpec", cont, ', "c", "d4"', 3, 3, L, "TRUE", gets, ""), deadlock=False,
                      simulate=ctx.pick(14, 150), depth=L + 3, seed=ctx.seed + L)
        jobs += [(h, rng.randrange(10 ** 9)) for h in vf.printed(out)]
    jobs.sort(key=lambda j: j[1])
    for job, r in zip(jobs, vf.pmap(replay, jobs, timeout=120, total=ctx.pick(130, 650))):
        if r is None:
            continue
        if isinstance(r, vf.Err):
            ctx.violation("raises " + r.text.strip().splitlines()[-1][:60], r.text[-900:], job)
            continue
        ctx.trace()
        ctx.case(job[0])
        ctx.sample([tuple(h["e"].values()) for h in job[0]][:6])
        for what, text in r:
            ctx.violation(what, text, job)
    ctx.rule = ("histories of adding, redefining, setting shared data, fitting and accessing generated by TLC from Multi.tla; "
                "after every step all containers and configurations compared with the content the model gives")
