"""P05: fits stored in the database or dumped are restored exactly (spec/Persist.tla)"""
import datetime as dt
import os
import random
import shutil
import tempfile
from pathlib import Path

import pipeline as P
import e2e
import vf
import fitgen
import fitmodels as FM
import p05_funcs
from p07 import same

import numpy as np
import pandas as pd

LEVEL = "model_checking"

RAW = [["site1", "site2", "Site3", "_x4"], ["1", "2", "10", "02"], ["a-b", "class", "x y", "1x"],
       ["\u00e9tat", "x.y", "RT1_7", "77"], [3, 12, 7, 40], ["k", "s/p", "K", "p"]]


def label(raw):
    import keyword
    s = str(raw)
    return s if s.isidentifier() and not keyword.iskeyword(s) else f"RT1_{s}"


def value(rng, p):
    return FM.pick_value(rng, p)


class World:
    """definitions (one per configuration) and the datasets of N fits"""

    def __init__(self, seed, N, NC, dyn, has, reps):
        rng = self.rng = random.Random(seed)
        self.NC, self.N = NC, N
        self.raw = list(rng.choice(RAW))
        rng.shuffle(self.raw)
        self.defs, cols = [], {}
        for c in range(max(NC, 1)):
            m = rng.choice(FM.MODELS)
            dd = {}
            ps = list(m.params)
            rng.shuffle(ps)
            nfit = 0
            for q in ps:
                a, b = FM.RANGES[q]
                k = rng.choice(["fit", "fit", "const", "aux"])
                if k == "fit":
                    nfit += 1
                    fr = rng.choice(["manual", "manual", "index", None, "2D + manual"] if dyn else [None, "index", "2D", 2, "D"])
                    st = rng.choice([round(a + .4 * (b - a), 5), np.float64(a + .3 * (b - a)), "auxiliary"])
                    lo, hi = round(a * .5, 5), round(b * 1.2, 5)
                    if rng.random() < .2:
                        lo, hi = np.float64(lo), np.float64(hi)
                    if rng.random() < .15:
                        hi = float("inf")
                    itp = fr not in (None, "manual", "2D + manual") and rng.random() < .3
                    dd[q] = [True, st, fr, ([lo], [hi])] + ([itp] if itp or rng.random() < .5 else [])
                    if fr and "manual" in str(fr):
                        cols[q + "_dyn"] = "dyn"
                    if isinstance(st, str):
                        cols[q + "_start"] = q
                elif k == "const":
                    v = value(rng, q)
                    dd[q] = [False, rng.choice([v, np.float64(v), float(v)])]
                else:
                    dd[q] = [False, "auxiliary"]
                    cols[q] = q
            if dyn and not any("manual" in str(x[2]) for x in dd.values() if x[0]):
                q = ps[0]
                a, b = FM.RANGES[q]
                dd[q] = [True, round(a + .4 * (b - a), 5), "manual", ([a * .5], [b * 1.2])]
                cols[q + "_dyn"] = "dyn"
            if not dyn and not any(x[0] for x in dd.values()):
                q = ps[0]
                a, b = FM.RANGES[q]
                dd[q] = [True, round(a + .4 * (b - a), 5), None, ([a * .5], [b * 1.2])]
            svs = m.props if m.call is None or (m.props is not None and rng.random() < .6) else m.call
            lsq = rng.choice([{}, dict(max_nfev=2), dict(max_nfev=np.int64(3), ftol=1e-4),
                              dict(max_nfev=3, loss="soft_l1", f_scale=np.float64(.5)),
                              dict(max_nfev=2, x_scale="jac", method="trf", xtol=None)])
            lsq = dict(lsq)
            lsq.setdefault("max_nfev", 4)
            self.defs.append(dict(sig0=rng.random() < .5, dB=rng.random() < .5, defdict=dd, set_V_SRF=svs,
                                  lsq_kwargs=lsq, int_Q=False))
        self.intq = [rng.random() < .25 for _ in self.defs]
        if NC:
            self.names = rng.sample(["one", "B", "cfg_3", "zz", "A", "_c"], NC)
        self.weights = rng.random() < .4
        self.extra = rng.random() < .3
        self.cols, self.dyn = cols, dyn
        self.rargkind = rng.randrange(3)
        self.fits = [self.build(i, has[i], reps) for i in range(N)]

    def frame(self, i, reps):
        rng = self.rng
        n = rng.randint(2, 7)
        base = dt.datetime(2019, 1, 1) + dt.timedelta(days=rng.randint(0, 400))
        hours = sorted(rng.sample(range(0, 200), n))
        if reps and n > 2:
            k = rng.randrange(n - 1)
            hours[k + 1] = hours[k]
        d = dict(inc=[round(rng.uniform(.15, .65), 6) for _ in range(n)],
                 sig=[round(rng.uniform(.02, .4), 6) for _ in range(n)])
        for c, kind in self.cols.items():
            if kind == "dyn":
                d[c] = [rng.randint(0, 2) for _ in range(n)]
            else:
                d[c] = [value(rng, kind) for _ in range(n)]
        if self.weights:
            d["data_weights"] = [round(rng.uniform(.5, 2), 4) for _ in range(n)]
        if self.extra:
            d["note"] = [float(i * 100 + k) for k in range(n)]
        return pd.DataFrame(d, index=pd.DatetimeIndex([base + dt.timedelta(hours=h) for h in hours]))

    def build(self, i, has, reps):
        from rt1.rtfits import Fits, MultiFits
        rng = self.rng
        ds = self.frame(i, reps)
        aux = None
        if has:
            n = rng.randint(1, 5)
            aux = pd.DataFrame(dict(sm=[round(rng.random() + i, 5) for _ in range(n)], cnt=[i * 10 + k for k in range(n)]),
                               index=pd.date_range("2018-03-01", periods=n, freq="D"))
        ra = [dict(ID=self.raw[i], n=i), dict(ID=self.raw[i], n=i, lat=round(48 + i / 7, 6), path=f"/some/file {i}.nc"),
              dict(ID=self.raw[i], x=i, y=.5 * i, flag=bool(i % 2))][self.rargkind]
        fits = []
        for d, iq in zip(self.defs, self.intq):
            f = Fits(dataset=ds, verbose=0, **{k: v for k, v in d.items()})
            fits.append(f)
        if self.NC:
            mf = MultiFits(dataset=ds, aux_data=aux, reader_arg=ra)
            for nm, f in zip(self.names, fits):
                mf.add_config(nm, f)
            mf.set_ID(self.raw[i])
            obj = mf
        else:
            obj = fits[0]
            obj.ID, obj.reader_arg = self.raw[i], ra
            obj.aux_data = aux
        for f in fits:
            f.performfit()
        for f, iq in zip(fits, self.intq):
            f._vf_model = f.calc_model(return_components=True) if f.res_dict is not None else None
            f._vf_resdf = f.res_df
            if iq:
                f.int_Q = True
        return obj


def state(obj, NC):
    """comparable content of a fit object"""
    fits = list(obj.configs) if NC else [obj]
    aux = getattr(obj, "aux_data", None)
    return dict(id=obj.ID, ds=obj.dataset, aux=aux, ra=getattr(obj, "reader_arg", None),
                names=list(obj.config_names) if NC else [],
                cfg=[dict(sig0=f.sig0, dB=f.dB, int_Q=f.int_Q, lsq=dict(f.lsq_kwargs), defdict=f.defdict.to_dict(),
                          order=list(f.defdict.keys()), svs=f._get_V_SRF_dict(),
                          res=getattr(f, "res_dict", None)) for f in fits],
                shared=all(f.dataset is None if obj.dataset is None else f.dataset is not None and f.dataset.equals(obj.dataset)
                           for f in fits),
                ids=[f.ID for f in fits], fits=fits)


def eqframe(a, b):
    if (a is None) != (b is None):
        return False
    if a is None:
        return True
    return list(a.columns) == list(b.columns) and list(a.index) == list(b.index) and \
        all(list(a[c]) == list(b[c]) for c in a)


def eqdict(a, b):
    if a is None or b is None:
        return not a and not b
    return set(a) == set(b) and all(list(map(float, np.atleast_1d(a[k]))) == list(map(float, np.atleast_1d(b[k]))) for k in a)


def dropped(d):
    return {k: v for k, v in (d or {}).items() if k != "_RT1_ID_num"}


def owners(st, w, origs, via):
    """the state in terms of the specification: which fit every part belongs to"""
    def own(pred):
        return next((i + 1 for i in range(w.N) if pred(origs[i], i)), -1)
    out = {}
    # several inputs may have the same label only by accident of the names: match exactly
    out["id"] = own(lambda o, i: str(st["id"]) == label(w.raw[i]) and
                    all(x == st["id"] for x in st["ids"]))
    if st["ds"] is None:
        out["data"] = out["labs"] = 0
    else:
        out["data"] = own(lambda o, i: eqframe(st["ds"], o["ds"]))
        if out["data"] > 0:
            out["labs"] = out["data"]
        else:
            dyn = sorted(c for c, k in w.cols.items() if k == "dyn")
            out["labs"] = own(lambda o, i: sorted(st["ds"].columns) == dyn and eqframe(st["ds"][dyn], o["ds"][dyn]))
            if out["labs"] > 0:
                out["data"] = 0
    out["aux"] = 0 if st["aux"] is None else own(lambda o, i: eqframe(st["aux"], o["aux"]))
    out["rarg"] = own(lambda o, i: dropped(st["ra"]) == dropped(o["ra"]))
    out["defs"], out["res"] = [], []
    n = max(w.NC, 1)
    for c in range(n):
        k = st["cfg"][c] if c < len(st["cfg"]) else None
        d = -1
        for e in range(n):
            o = origs[0]["cfg"][e]
            if k and (not w.NC or st["names"][c] == w.names[c]) and \
                    all(same(k[x], o[x]) for x in ("sig0", "dB", "int_Q", "lsq", "defdict", "order", "svs")):
                d = e
                if e == c:
                    break
        out["defs"].append(d + 1 if w.NC else (0 if d == 0 else -1))
        if not k or k["res"] is None:
            out["res"].append(0)
        else:
            out["res"].append(own(lambda o, i: eqdict(k["res"], o["cfg"][c]["res"])))
    if w.NC and (st["names"] != w.names or not st["shared"]):
        out["defs"] = st["names"]
    return out


def agree(got, exp, w, origs, i):
    """expectation of the specification; results of configurations that fit nothing are empty"""
    for k in ("id", "data", "labs", "aux", "rarg"):
        e = exp[k]
        g = got[k]
        if g != e and not (k == "data" and e > 0 and g > 0 and eqframe(origs[e - 1]["ds"], origs[g - 1]["ds"])):
            # the labels are a part of the dataset: nothing to tell apart without them
            if k == "labs" and exp["data"] == 0 and e > 0 and g > 0 and got["data"] == 0:
                dyn = sorted(c for c, kk in w.cols.items() if kk == "dyn")
                if eqframe(origs[e - 1]["ds"][dyn], origs[g - 1]["ds"][dyn]):
                    continue
            return f"{k}: belongs to {g}, expected {e}"
    ed = exp["defs"]
    ed = [ed[c] for c in range(w.NC)] if w.NC else [0]
    if got["defs"] != ed:
        return f"definitions of {got['defs']}, expected {ed}"
    er = [exp["res"][c] for c in range(w.NC)] if w.NC else [exp["res"]["0"] if isinstance(exp["res"], dict) else exp["res"][0]]
    for c, (g, e) in enumerate(zip(got["res"], er)):
        if g == e:
            continue
        o = origs[i]["cfg"][c]["res"]
        if not o and g <= 1:
            continue            # (nothing was fitted)
        if e > 0 and g > 0 and eqdict(origs[e - 1]["cfg"][c]["res"], origs[g - 1]["cfg"][c]["res"]):
            continue
        return f"results of configuration {c + 1} belong to {g}, expected {e}"
    return None


def close(a, b):
    return list(a.columns) == list(b.columns) and len(a) == len(b) and \
        np.allclose(np.asarray(a, float), np.asarray(b, float), rtol=1e-9, atol=1e-12, equal_nan=True)


def values(st, origs, i, w):
    """model values and re-indexed parameters of a restored object"""
    for c, f in enumerate(st["fits"]):
        o = origs[i]["fits"][c]
        if not o.res_dict and not getattr(f, "res_dict", None):
            continue
        iq, f.int_Q = f.int_Q, False
        try:
            m = f.calc_model(return_components=True)
            r = f.res_df
        finally:
            f.int_Q = iq
        if not close(m, o._vf_model):
            return f"model values of configuration {c + 1} differ"
        if sorted(r.columns) != sorted(o._vf_resdf.columns) or not close(r[list(o._vf_resdf)], o._vf_resdf):
            return f"parameter series of configuration {c + 1} differ"
    return None


def replay(job):
    h, NC, seed = job
    rng = random.Random(seed)
    root = Path(tempfile.mkdtemp(prefix="vf_p05_"))
    try:
        with vf.silent():
            return run_history(h, NC, rng, root, seed)
    finally:
        shutil.rmtree(root, ignore_errors=True)


def run_history(h, NC, rng, root, seed):
    from rt1.rtresults import RTresults, HDFaccessor
    from rt1.rtfits import load
    N = len(h["has"])
    w = World(seed, N, NC, h["dyn"], h["has"], rng.random() < .3)
    origs = [state(f, NC) for f in w.fits]
    opts = dict(save_data=h["opt"]["data"], save_auxdata=h["opt"]["aux"], save_results=h["opt"]["results"],
                save_res_df=rng.random() < .5)
    if rng.random() < .3 and all(h["opt"].values()):
        opts = {}
    p05_funcs.FITS.clear()
    p05_funcs.FITS.update({i: (w.fits[i], opts) for i in range(N)})
    for d in ("cfg", "results", "dumps"):
        (root / "proc" / d).mkdir(parents=True)
    db = root / "proc" / "results" / "fit_db.h5"
    nums, order, free, objs, n = {}, [], set(h["free"]), [], 0
    pend = []
    acc, opened = [None], []

    def results(**kw):
        opened.append(RTresults(root, **kw).proc)
        return opened[-1]

    def flush():
        if not pend:
            return None
        acc[0] = None
        for r in opened:
            # (an HDF store can not be appended to while the same process reads it)
            if not r._use_dumps and db.exists() and r.fit_db.store.is_open:
                r.fit_db.close()
        opened.clear()
        ops = list(pend)
        pend.clear()
        args = [dict(ID=str(w.raw[i]), n=i, num=nums[i]) for i in ops]

        def main():
            with P.RT1_processor.writer_pool(n_worker=rng.choice([1, 2]), n_combiner=1, n_writer=1, dst_path=str(db),
                                             write_chunk_size=rng.choice([1, 2, 10]), out_cache_size=5) as p:
                p.run_starmap(arg_list=args, process_func=p05_funcs.process, ID_getter=lambda a: label(a["ID"]))
        _, exc, hung = e2e.in_world(main, rng.randrange(10 ** 9))
        if exc is not None or hung:
            return f"storing fits failed: {exc!r} {hung}"
        return None

    def check(obj, i, exp, via):
        if obj is None:
            return "the fit could not be loaded"
        st = state(obj, NC)
        got = owners(st, w, origs, via)
        bad = agree(got, exp[i], w, origs, i)
        if bad:
            return bad
        if (via == "dump" or (h["opt"]["data"] and h["opt"]["results"])):
            return values(st, origs, i, w)
        return None

    for pos, e in enumerate(h["hist"]):
        op = e["op"]
        if op == "store":
            i = e["i"] - 1
            k = min(x for x in range(50) if x not in free and x not in nums.values())
            nums[i] = k
            order.append(i)
            pend.append(i)
            if rng.random() < .5:
                continue
        bad = flush()
        if bad:
            return n, f"{op} (step {pos + 1}): {bad}"
        n += 1
        if op == "store":
            continue
        try:
            if op == "load":
                i, by = e["i"] - 1, e["by"]
                if acc[0] is None or rng.random() < .3:
                    acc[0] = results()
                res = acc[0]
                if by == "number":
                    obj = res.fit_db.load_fit(nums[i])
                elif by == "name":
                    obj = res.fit_db.load_fit(label(w.raw[i]))
                elif by == "results":
                    obj, lab = res.load_fit(label(w.raw[i]), return_ID=True)
                    if lab != label(w.raw[i]):
                        return n, f"load {i + 1} returned the ID {lab!r}"
                elif by == "results_num":
                    obj = res.load_fit(nums[i])
                else:
                    obj = res.load_fit(None)
                    i = next((j for j in nums if obj is not None and obj.ID == label(w.raw[j])), -1)
                    if i < 0:
                        return n, f"a random fit has the ID {obj and obj.ID!r}"
                bad = check(obj, i, h["expect"], "db")
                objs.append((obj, i, "db"))
            elif op == "all":
                res = results()
                fits = list(res.dump_fits)
                # (rows of a run are in no particular order: compare by ID)
                bad = None
                ids = sorted(f.ID for f in fits)
                if ids != sorted(label(w.raw[j]) for j in nums):
                    bad = f"iteration yields {ids}"
                for f in fits:
                    if bad:
                        break
                    j = next(j for j in nums if label(w.raw[j]) == f.ID)
                    bad = check(f, j, h["expect"], "db")
            elif op == "change":
                obj = objs[e["k"] - 1][0]
                ds = obj.dataset
                new = None if ds is None else ds * 0 + .3
                fl = list(obj.configs) if NC else [obj]
                if ds is not None:
                    if rng.random() < .5:
                        ds.iloc[:, 0] = -7.5
                    elif NC:
                        obj.set_dataset(new)
                    else:
                        obj.dataset = new
                for f in fl:
                    if getattr(f, "res_dict", None):
                        for k in f.res_dict:
                            f.res_dict[k] = [-1.]
                    f.lsq_kwargs["max_nfev"] = 77
                    key = f.defdict.keys()[0]
                    f.defdict[key].val = -3.
                if obj.aux_data is not None if hasattr(obj, "aux_data") else False:
                    obj.aux_data.iloc[:, 0] = -9
                if isinstance(getattr(obj, "reader_arg", None), dict):
                    obj.reader_arg["ID"] = "changed"
                bad = None
            elif op == "dump":
                i = e["i"] - 1
                w.fits[i].dump(root / "proc" / "dumps" / f"{w_name(w, i)}.dump", mini=e["mini"])
                bad = None
                now = state(w.fits[i], NC)
                if agree(owners(now, w, origs, "dump"), h["full"][i], w, origs, i):
                    bad = "dumping changed the fit"
            else:
                i, by = e["i"] - 1, e["by"]
                path = root / "proc" / "dumps" / f"{w_name(w, i)}.dump"
                if by == "load":
                    obj = load(path)
                elif by == "path":
                    obj = results().load_fit(path)
                elif by == "name":
                    obj, lab = results(use_dumps=True).load_fit(w_name(w, i), return_ID=True)
                    if lab != w_name(w, i):
                        return n, f"load of {w_name(w, i)} returned the ID {lab!r}"
                else:
                    alls = [f for f in results(use_dumps=True).dump_fits if f.ID == label(w.raw[i])]
                    obj = alls[0] if len(alls) == 1 else None
                bad = check(obj, i, h["full"], "dump")
                objs.append((obj, i, "dump"))
        except Exception as ex:
            import traceback
            tb = traceback.extract_tb(ex.__traceback__)[-1]
            return n, f"{op} {e.get('by', '')} (step {pos + 1}): {type(ex).__name__}: {str(ex)[:150]} [{os.path.basename(tb.filename)}:{tb.lineno}]"
        if bad:
            return n, f"{op} {e.get('by', '')} of fit {e.get('i')} (step {pos + 1}): {bad}"
        # the originals and earlier restored objects are untouched
        if rng.random() < .2:
            for j in range(N):
                now = state(w.fits[j], NC)
                bad = agree(owners(now, w, origs, "dump"), h["full"][j], w, origs, j)
                if bad:
                    return n, f"after {op}: the stored fit {j + 1} itself changed: {bad}"
    # parameter series and metadata of the database
    bad = flush()
    if bad:
        return n, bad
    if nums and (opts.get("save_res_df", True)):
        with HDFaccessor(db) as a:
            for i, k in nums.items():
                try:
                    df = a.datasets.res_df.get_id(k)
                except Exception as ex:
                    return n, f"the stored parameter series of fit {i + 1} can not be read: {ex!r}"[:250]
                for c, f in enumerate(origs[i]["fits"]):
                    o = f._vf_resdf
                    if len(o.columns) == 0:
                        continue
                    g = df.xs(w.names[c], level="cfg") if NC else df
                    g = g[[x for x in o.columns if x in g]]
                    if not close(g, o):
                        return n, f"the stored parameter series of fit {i + 1} differ"
    return n, None


def w_name(w, i):
    return "d%d_%s" % (i, label(w.raw[i]).replace("/", "_").replace(".", "_").replace(" ", "_"))


def run(ctx):
    cfg = ("INIT Init\nNEXT Next\nVIEW View\nCONSTANTS N = %d NC = %d MaxObj = 2 MaxOps = %d Design = \"%s\" Opts <- %s\n"
           "INVARIANTS TypeOK Distinct Exact Stable\n")
    ctx.tlc("Persist", cfg_text=cfg % (2, 2, ctx.pick(6, 7), "ok", "AllOpts"), deadlock=False)
    ctx.tlc("Persist", cfg_text=cfg % (3, 0, ctx.pick(6, 7), "ok", "FullOpts"), deadlock=False)
    for d, nc in [("position", 0), ("stale", 0), ("firstcfg", 2), ("alias", 0)]:
        if "violated" not in ctx.tlc("Persist", cfg_text=cfg % (2, nc, 6, d, "AllOpts"), deadlock=False, expect_error=True,
                                     count=False):
            raise RuntimeError(f"the specification does not tell the design {d!r} apart")
    rng = random.Random(ctx.seed)
    jobs = []
    for nc, num in [(0, ctx.pick(90, 700)), (1, ctx.pick(20, 150)), (2, ctx.pick(50, 400)), (3, ctx.pick(30, 250))]:
        out = ctx.tlc("Persist", cfg_text=f"INIT GInit\nNEXT GNext\nCONSTANTS N = 4 NC = {nc} MaxObj = 8 MaxOps = 16 "
                      "Design = \"ok\" Opts <- AllOpts\nINVARIANTS Emit Exact\n", simulate=num, depth=24, workers=1,
                      deadlock=False, count=False)
        for h in vf.printed(out):
            jobs.append((h, nc, rng.randrange(10 ** 9)))
    res = vf.pmap(replay, jobs, timeout=240, total=ctx.pick(400, 780))
    done = 0
    for (h, nc, s), r in zip(jobs, res):
        if r is None:
            continue
        ops = [[e["op"], e.get("by", "")] for e in h["hist"]]
        ctx.case([nc, h["opt"], h["has"], h["dyn"], ops])
        ctx.trace()
        if isinstance(r, vf.Err):
            ctx.violation("history-exception", r.text, dict(h=h, nc=nc, seed=s))
            continue
        done += r[0]
        if r[1]:
            ctx.violation(key(r[1]), r[1], dict(h=h, nc=nc, seed=s))
    ctx.rule = ("every restored fit is assembled from exactly the rows stored under its number; dumps keep the complete state; "
                "restored objects, stored objects and the database are independent")
    ctx.extra.update(histories=len(jobs), operations_replayed=done)
    ctx.sample(dict(configs=jobs[0][1], history=jobs[0][0]["hist"][:6], options=jobs[0][0]["opt"]))


def key(t):
    import re
    return "restore-" + re.sub(r"[^a-z]+", "-", re.sub(r"\(.*?\)|\d+", "", t.split("[")[0]).lower())[:60].strip("-")
