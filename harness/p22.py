"""P22: every input of a run is processed with its own data only (spec/Isolation.tla)"""
import datetime as dt
import random
import re

import e2e
import vf
import p22_funcs
from p05 import label, eqframe, eqdict, dropped

import numpy as np
import pandas as pd

LEVEL = "model_checking"

MODULE = "from p22_funcs import processing_cfg\n"

RAW = [[f"s{k}" for k in range(1, 15)], ["1", "2", "10", "3", "07", "20", "100", "5", "6", "11", "12", "4"],
       ["a-b", "b a", "x_y", "class", "9z", "q", "a.1", "b:c", "\u00e9t\u00e9", "X_Y", "Q", "_"], list(range(40, 10, -2))]

DEFS = {
    "a": ("omega = [True, 0.1, None, 0.01, 0.5]\ntau = [True, 0.5, index, 0.01, 1.5]\nN = [False, 0.1]",
          "V_name = Rayleigh\ntau = tau\nomega = omega", "SRF_name = Isotropic\nNormBRDF = N", {}),
    "b": ("omega = [False, auxiliary]\ntau = [True, 0.4, 2, 0.01, 1.5]\nt = [True, 0.3, None, 0.05, 0.6]\nN = [True, 0.2, manual, 0.01, 1]",
          "V_name = Rayleigh\ntau = tau\nomega = omega", "SRF_name = HG_nadirnorm\nt = t\nncoefs = 3\nNormBRDF = N",
          dict(omega=(.05, .4), N_dyn="dyn")),
    "d": ("w = [False, 0.2]\ntau = [True, auxiliary, 3, 0.01, 1.5]\ntv = [False, auxiliary]\nts = [True, auxiliary, None, 0.05, 0.6]",
          "V_name = HenyeyGreenstein\nt = tv\nncoefs = 3\ntau = tau\nomega = w",
          "SRF_name = HG_nadirnorm\nt = ts\nncoefs = 3\nNormBRDF = 0.2",
          dict(tau_start=(.1, 1), tv=(.05, .4), ts_start=(.1, .5))),
    "c": ("w = [True, auxiliary, D, 0.01, 0.5]\ntau = [False, 0.3]\nN = [True, 0.15, None, 0.01, 1]\nbsf = [False, 0.2]",
          "V_name = HenyeyGreenstein\nt = 0.2\nncoefs = 3\ntau = tau\nomega = w", "SRF_name = Isotropic\nNormBRDF = N",
          dict(w_start=(.05, .4))),
}


def ini(rng, multi):
    keys = rng.sample(sorted(DEFS), 2) if multi else [rng.choice(sorted(DEFS))]
    names = rng.sample(["one", "B", "cfg_3"], 2) if multi else [None]
    txt, cols = "", {}
    sig0, dB = rng.random() < .5, rng.random() < .3
    for n, k in zip(names, keys):
        d, v, s, c = DEFS[k]
        p = f"#config {n} " if n else ""
        if n and k == keys[0]:
            # (parts that are not defined for a configuration are those of the default)
            txt += f"[defdict]\n{d}\n[RT1_V]\n{v}\n[RT1_SRF]\n{s}\n"
        txt += f"[{p}defdict]\n{d}\n[{p}RT1_V]\n{v}\n[{p}RT1_SRF]\n{s}\n"
        cols.update(c)
    head = (f"[fits_kwargs]\nsig0 = {sig0}\ndB = {dB}\nint_Q = {rng.random() < .2}\n[least_squares_kwargs]\nmax_nfev = 3\n")
    return head + txt, cols, dB


def frame(rng, cols, dB, weights):
    n = rng.randint(3, 7)
    hours = sorted(rng.sample(range(0, 150), n))
    base = dt.datetime(2019, 1, 1) + dt.timedelta(days=rng.randint(0, 300))
    sig = [rng.uniform(.03, .4) for _ in range(n)]
    d = dict(inc=[rng.uniform(.15, .65) for _ in range(n)],
             sig=[float(10 * np.log10(x)) for x in sig] if dB else sig)
    for c, r in sorted(cols.items()):
        d[c] = [rng.randint(0, 2) for _ in range(n)] if r == "dyn" else [rng.uniform(*r) for _ in range(n)]
    if weights:
        d["data_weights"] = [rng.uniform(.3, 3) for _ in range(n)]
    return pd.DataFrame(d, index=pd.DatetimeIndex([base + dt.timedelta(hours=h) for h in hours]))


def fits_of(obj):
    return list(obj.configs) if hasattr(obj, "config_names") else [obj]


def names_of(obj):
    return list(obj.config_names) if hasattr(obj, "config_names") else [None]


def replay(job):
    h, seed, multi = job
    rng = random.Random(seed)
    with vf.silent():
        head, cols, dB = ini(rng, multi)
        pr = e2e.Project((head, ""), MODULE)
        try:
            return run_scenario(pr, h, rng, cols, dB, multi)
        finally:
            pr.close()


def alone(pr, ds):
    """the fit of one dataset, obtained with a new fit object"""
    from rt1.rtparse import RT1_configparser
    f = RT1_configparser(pr.path).get_fitobject()
    if hasattr(f, "config_names"):
        f.set_dataset(ds.copy())
    else:
        f.dataset = ds.copy()
    for c in fits_of(f):
        c.performfit()
    return {n: c.res_dict for n, c in zip(names_of(f), fits_of(f))}


def run_scenario(pr, h, rng, cols, dB, multi):
    from rt1.rtparse import RT1_configparser
    from rt1.rtfits import load
    N = len(h["kind"][0])
    raw = list(rng.choice(RAW))[:]
    rng.shuffle(raw)
    raw = raw[:N]
    weights = rng.random() < .4
    dss = [frame(rng, cols, dB, weights) for _ in range(N)]
    auxs = [pd.DataFrame(dict(sm=[i + rng.random() for _ in range(k)]), index=pd.date_range("2018-01-01", periods=k))
            for i, k in enumerate(rng.choices(range(1, 5), k=N))]
    base_aux = pd.DataFrame(dict(sm=[-1., -2.]), index=pd.date_range("2017-01-01", periods=2))
    args = [dict(ID=raw[i], n=i, lat=round(rng.uniform(0, 90), 5)) for i in range(N)]
    refs = [alone(pr, d) for d in dss]
    dump = rng.random() < .4
    opts = rng.choice([{}, {}, dict(save_res_df=False)])
    rec = dict(kind=h["kind"], base=h["base"], reads=[], errs=[], db=[])
    note = dict(workers=[], dump=dump, multi=multi)

    def owner(pred):
        return next((i + 1 for i in range(N) if pred(i)), -2)

    def parts(f):
        aux = getattr(f, "aux_data", None)
        rd = {n: getattr(c, "res_dict", None) for n, c in zip(names_of(f), fits_of(f))}
        return dict(data=0 if f.dataset is None else owner(lambda i: eqframe(f.dataset, dss[i]) and
                                                           all(c.dataset.equals(f.dataset) for c in fits_of(f))),
                    aux=0 if aux is None or not isinstance(aux, pd.DataFrame) else
                    -1 if eqframe(aux, base_aux) else owner(lambda i: eqframe(aux, auxs[i])),
                    rarg=owner(lambda i: dropped(f.reader_arg) == args[i] and
                               all(dropped(c.reader_arg) == args[i] for c in fits_of(f))),
                    id=owner(lambda i: f.ID == label(raw[i]) and all(c.ID == f.ID for c in fits_of(f))),
                    res=owner(lambda i: set(rd) == set(refs[i]) and all(eqres(rd[n], refs[i][n]) for n in rd)))
    absent = dict(data=-9, aux=-9, rarg=-9, id=-9, res=-9)
    for r, kinds in enumerate(h["kind"]):
        order = list(range(N))
        rng.shuffle(order)
        p22_funcs.reset(raw=raw, kind=kinds, ds=dss, aux=auxs, args=[args[i] for i in order])
        kw = {}
        if h["base"]:
            pf = RT1_configparser(pr.path).get_fitobject()
            if multi:
                pf.set_aux_data(base_aux.copy())
            else:
                pf.aux_data = base_aux.copy()
            kw["parent_fit"] = pf
        proc = pr.process(hdf_export_kwargs=opts or None, **kw)
        ncpu = rng.choice([1, 1, 2, 3] if N < 9 else [1, 1, 2])
        if "exists" in kinds:
            (pr.folder / "dumps").mkdir(parents=True, exist_ok=True)
        for i in range(N):
            if kinds[i] == "exists":
                make_dump(pr, raw[i], dss[i], auxs[i], args[i])
        _, exc, hung = e2e.in_world(lambda: proc.run_processing(ncpu=ncpu, logfile_level=None, dump_fit=dump,
                                                                **(dict(pool_kwargs=dict(write_chunk_size=rng.choice([1, 2, 100])))
                                                                   if rng.random() < .0 else {})),
                                    rng.randrange(10 ** 9))
        if hung or exc is not None:
            return rec, note, f"run {r + 1} failed: {exc!r} {'(hung)' if hung else ''} ... {(e2e.in_world.tb or '')[-300:]}"
        note["workers"].append(len(set(p22_funcs.S["who"])))
        rec["reads"].append(list(p22_funcs.S["reads"]))
        rec["errs"].append(list(p22_funcs.S["errs"]))
        got = {}
        if pr.db.exists():
            res = pr.results()
            with res.fit_db as db:
                labs = [str(x) for x in db.IDs.ID]
                if len(set(labs)) != len(labs):
                    return rec, note, f"duplicate IDs in the database: {labs}"
                for num in db.IDs.index:
                    f = db.load_fit(int(num))
                    p = parts(f)
                    got[db.IDs.ID[num]] = p
        bad = set(got) - {label(x) for x in raw}
        if bad:
            return rec, note, f"unknown IDs {sorted(bad)} in the database"
        rec["db"].append([got.get(label(x), absent) for x in raw])
        if dump:
            files = {p.name for p in (pr.folder / "dumps").iterdir() if p.suffix == ".dump"}
            for i in range(N):
                p = pr.folder / "dumps" / f"{raw[i]}.dump"
                there = got.get(label(raw[i])) is not None
                files.discard(p.name)
                if "exists" in [k[i] for k in h["kind"]]:
                    continue
                if p.exists() != there:
                    return rec, note, f"dump of input {i + 1} ({h['kind'][r][i]}): exists {p.exists()}, stored in the database {there}; {sorted(q.name for q in (pr.folder / "dumps").iterdir())}"
                if there:
                    d = parts(load(p))
                    g = dict(got[label(raw[i])])
                    # (a list of auxiliary data is kept in dumps)
                    if d != g:
                        return rec, note, f"the dump of input {i + 1} holds {d}, the database {g}"
            if files:
                return rec, note, f"dumps of unknown inputs: {sorted(files)}"
    return rec, note, None


def make_dump(pr, raw, ds, aux, arg):
    """a dump of an earlier run"""
    from rt1.rtparse import RT1_configparser
    p = pr.folder / "dumps" / f"{raw}.dump"
    if p.exists():
        return
    f = RT1_configparser(pr.path).get_fitobject()
    if hasattr(f, "config_names"):
        f.set_dataset(ds.copy())
        f.set_aux_data(aux.copy())
        f.set_reader_arg(dict(arg, _RT1_ID_num=77))
        f.set_ID(raw)
    else:
        f.dataset, f.aux_data, f.ID, f.reader_arg = ds.copy(), aux.copy(), raw, dict(arg, _RT1_ID_num=77)
    for c in fits_of(f):
        c.performfit()
    f.dump(p, mini=True)


def eqres(a, b):
    if not a or not b:
        return not a and not b
    return set(a) == set(b) and all(len(np.atleast_1d(a[k])) == len(np.atleast_1d(b[k])) and
                                    np.allclose(a[k], b[k], rtol=1e-7, atol=1e-10) for k in a)


def run(ctx):
    cfg = ("INIT Init\nNEXT Next\nCONSTANTS N = %d W = %d Rounds = %d Design = \"%s\" Kinds <- %s\n"
           "INVARIANTS Own Complete Errors Once\n")
    for a in [(3, 2, 1, "ok", "AllKinds"), (2, 2, 2, "ok", "FewKinds")] + \
            ([] if not ctx.thorough else [(2, 2, 2, "ok", "AllKinds"), (4, 2, 1, "ok", "FewKinds"), (3, 2, 2, "ok", "FewKinds")]):
        ctx.tlc("Isolation", cfg_text=cfg % a, deadlock=False)
    for d in ("keepaux", "firstrarg", "keepres", "storefailed"):
        if "violated" not in ctx.tlc("Isolation", cfg_text=cfg % (2, 1, 1, d, "FewKinds"), deadlock=False, expect_error=True,
                                     count=False):
            raise RuntimeError(f"the specification does not tell the design {d!r} apart")
    rng = random.Random(ctx.seed)
    jobs = []
    for n, r, num in [(12, 1, ctx.pick(40, 300)), (3, 2, ctx.pick(30, 250)), (9, 2, ctx.pick(12, 120)), (4, 1, ctx.pick(15, 100))]:
        out = ctx.tlc("IsolationGen", cfg_text=f"INIT GInit\nNEXT GNext\nCONSTANTS N = {n} Rounds = {r}\nINVARIANT Emit\n",
                      simulate=num, depth=3, workers=1, deadlock=False, count=False)
        jobs += [(h, rng.randrange(10 ** 9), rng.random() < .5) for h in vf.printed(out)]
    rng.shuffle(jobs)
    res = vf.pmap(replay, jobs, timeout=240, total=ctx.pick(400, 700))
    recs, idx = [], []
    kinds = set()
    for j, (job, r) in enumerate(zip(jobs, res)):
        if r is None:
            continue
        ctx.case([job[0], job[2]])
        if isinstance(r, vf.Err):
            ctx.violation("scenario-exception", r.text, dict(job=job))
            continue
        ctx.trace()
        rec, note, bad = r
        if bad:
            ctx.violation("run-" + re.sub(r"[^a-z]+", "-", re.sub(r"\(.*?\)|\d+|\[.*|\{.*", "", bad).lower())[:60].strip("-"), bad,
                          dict(job=job, note=note))
        else:
            kinds |= {k for ks in rec["kind"] for k in ks}
            recs.append(rec)
            idx.append(j)
    if not recs and not ctx.violations:
        raise RuntimeError("no scenario was completed")
    if recs:
        for f in ctx.validate("IsolationTrace", recs, "INIT Init\nNEXT Next\n", shards=4):
            rec = recs[f[0] - 1]
            ctx.violation("isolation-" + re.sub(r"[^a-z]+", "-", f[1].lower()),
                          f"{f[1]}: kinds {rec['kind']} parent aux {rec['base']} reads {rec['reads']} errors {rec['errs']} stored {rec['db']}"[:900],
                          dict(job=jobs[idx[f[0] - 1]], rec=rec))
    ctx.rule = "every part of a stored fit stems from the input it is stored for; inputs without a fit leave nothing but one recorded error"
    ctx.extra.update(scenarios=len(recs), kinds=sorted(kinds))
    if recs:
        ctx.sample(recs[0])
