import random

import numpy as np

import trees as T
import vf

LEVEL = "model_checking"
TR = {}


def conv(val, inc, a, b):
    """the specification's conversion from convention a to convention b"""
    return T.ev(TR[("conv", "", "", 0, a, b)], dict(val=val, t0=inc, inc=inc, th=inc))


def close(got, want, rel=1e-10):
    got, want = np.asarray(got, float), np.asarray(want, float)
    if got.shape != want.shape:
        return f"shape {got.shape} instead of {want.shape}"
    # decibel values near 0 lose relative, not absolute precision
    ok = (abs(got - want) <= rel * (abs(want) + 1)) & (np.sign(got) == np.sign(want)) | (got == want)
    ok |= (abs(got - want) < 1e-9) & (abs(want) < 1e-6) & (abs(got - want) <= 1e-6 * abs(want) + 1e-11)
    if ok.all():
        return None
    k = np.unravel_index(np.argmax(~ok), ok.shape)
    return f"{got[k]!r} instead of {want[k]!r}"


def chain(job):
    from rt1.general_functions import dBsig0convert
    import pandas as pd
    path, seed = job
    rng, r = random.Random(seed), np.random.RandomState(seed % 2 ** 31)
    fails = []
    n = rng.choice([1, 2, 5])
    shape = rng.choice([(n,), (n, 1), (2, n), ()])
    inc = r.uniform(0, 1.5, shape)
    lin = 10 ** r.uniform(-7, 1.5, shape)
    v0 = conv(lin, inc, T.NO, path[0])
    style = rng.randrange(4)
    val, ang = v0, inc
    if shape == () and style < 2:
        val, ang = float(v0), float(inc)
    elif style == 2 and len(shape) == 1:
        ix = pd.date_range("2020-01-01", periods=n)
        val, ang = pd.Series(v0, ix), pd.Series(inc, ix)
    elif style == 3 and shape:
        # one angle for all values
        ang = float(np.ravel(inc)[0])
        inc = np.full(shape, ang)
        val = v0 = conv(lin, inc, T.NO, path[0])
    orig = np.array(val, float), np.array(ang, float)
    first = val
    for a, b in zip(path, path[1:]):
        args = dict(val=val, inc=ang, dB=b[1], sig0=b[0], fitdB=a[1], fitsig0=a[0])
        new = dBsig0convert(**args) if rng.random() < .5 else dBsig0convert(*args.values())
        want = conv(v0, inc, path[0], b)
        d = close(new, want)
        if d:
            fails.append((f"conversion", f"from sig0, dB={a} to {b} along {path}: {d}"))
        if a == b and not np.array_equal(np.asarray(new, float), np.asarray(val, float)):
            fails.append(("conversion without a change of the convention", f"{a}"))
        direct = dBsig0convert(first, ang, b[1], b[0], path[0][1], path[0][0])
        d = close(direct, new, 1e-9)
        if d:
            fails.append(("conversion depends on the path", f"{path} {d}"))
        val = new
    if not (np.array_equal(np.array(first, float), orig[0]) and np.array_equal(np.array(ang, float), orig[1])):
        fails.append(("input modified", str(path)))
    return fails, [path, style, list(shape)]


def fits(job):
    """one fit object whose conventions are changed along a path; the same measurements in every convention"""
    path, spec, seed = job
    import fitcommon as F
    import fitgen as G
    rng = random.Random(seed)
    c = G.Case(*spec, interp=False)
    n = len(c.times)
    vals = {}
    fails = []
    import pandas as pd
    with vf.silent():
        objs = {}
        for cv in [(s, d) for s in (False, True) for d in (False, True)]:
            cols = dict(c.cols)
            cols["sig"] = list(np.array([conv(np.float64(x), np.float64(i), (c.sig0, c.dB), cv) for x, i in zip(c.sig, c.inc)], float))
            df = pd.DataFrame(cols, index=pd.DatetimeIndex(c.times))
            objs[cv] = F.Fits(sig0=cv[0], dB=cv[1], dataset=df, defdict=c.defdict(), set_V_SRF=c.svs(), int_Q=seed % 3 == 0)
        f0 = objs[T.NO]
        import fitmodels as FM
        # results: one value for each group, as many as the object itself reports
        rec = {}

        def solver(fun, x0, jac="2-point", bounds=None, **kw):
            import scipy.optimize as so
            x = np.array([a + (b - a) * (.2 + .6 * (j + .5) / len(x0)) for j, (a, b) in
                          enumerate(zip(*[np.broadcast_to(b, len(x0)) for b in bounds]))])
            r = np.asarray(fun(x), float)
            rec["r"] = r
            return so.OptimizeResult(x=x, fun=r, jac=np.zeros((len(r), len(x))), cost=.5 * float(r @ r), grad=x * 0, nfev=1, njev=1,
                                     status=1, success=True, message="stub", optimality=0., active_mask=x * 0)
        ref, comps = {}, {}
        for cv, f in objs.items():
            F.SOLVER["fn"] = solver
            try:
                f.performfit()
            finally:
                F.SOLVER["fn"] = None
            ref[cv] = f.calc_model(return_components=False)
            comps[cv] = f.calc_model(return_components=True)
            vals[cv] = f.res_dict
        inc = f0.inc[~f0.mask]
        lin = ref[T.NO]["tot"].values
        for cv in objs:
            if str(vals[cv]) != str(vals[T.NO]):
                fails.append(("results depend on the convention", f"{cv}"))
            d = close(ref[cv]["tot"].values, conv(lin, inc, T.NO, cv), 1e-8)
            if d:
                fails.append(("model values of the same fit", f"sig0, dB={cv}: {d}"))
            for k in comps[cv]:
                x = comps[T.NO][k].values
                if (x <= 0).any():
                    continue
                d = close(comps[cv][k].values, conv(x, inc, T.NO, cv), 1e-8)
                if d:
                    fails.append((f"component {k} of the same fit", f"sig0, dB={cv}: {d}"))
            # values for other angles
            t = np.array([.2, .5, .9])
            par = {q: float(np.atleast_1d(vals[cv][q])[0]) for q in c.names_def}
            par.update({q: FM.RANGES[q][0] for q in c.auxc})
            fx = {q: v for q, v in par.items() if q in c.auxc}
            rc = rng.random() < .5
            a = objs[cv].calc({q: par[q] for q in c.names_def}, t, fixed_param=fx or None, return_components=rc)
            b = f0.calc({q: par[q] for q in c.names_def}, t, fixed_param=fx or None, return_components=rc)
            if len(b) > 3:                     # (the interaction term may be negative)
                a, b = a[:3], b[:3]
            d = close(np.asarray(a), conv(np.asarray(b), t, T.NO, cv), 1e-8) if np.all(np.asarray(b) > 0) else None
            if d:
                fails.append(("calc() of the same fit", f"sig0, dB={cv}: {d}"))
        # one object, conventions assigned one after the other
        f = objs[path[0]]
        for cv in path[1:] + path[:1]:
            for k, v in rng.sample([("sig0", cv[0]), ("dB", cv[1])], 2):
                setattr(f, k, v)
                if rng.random() < .3:
                    f.calc_model(res_dict=vals[cv])
            got = f.calc_model(res_dict=vals[cv])["tot"].values
            d = close(got, conv(lin, inc, T.NO, cv), 1e-8)
            if d:
                fails.append(("model values after changing the convention", f"{path}: {cv}: {d}"))
    return fails, [c.model.name, path, n]


def run(ctx):
    rng = random.Random(ctx.seed)
    out = ctx.tlc("Units", deadlock=False, cfg_text="SPECIFICATION Spec\nCONSTANT MaxLen = %d\nINVARIANTS Path Identity Invert Direct Emit\n" % ctx.pick(4, 6))
    paths = [[tuple(c) for c in p] for p in vf.printed(out, "PATH")]
    TR.update(T.get(ctx, ["conv"]))
    jobs = [(p, rng.randrange(10 ** 9)) for p in paths for _ in range(ctx.pick(6, 8))]
    for j, r in zip(jobs, vf.pmap(chain, jobs, timeout=60, total=ctx.pick(200, 2000))):
        judge(ctx, j, r)
    import fitgen as G
    fj = [(p, G.random_spec(rng, nmax=6), rng.randrange(10 ** 9)) for p in rng.sample(paths, min(len(paths), ctx.pick(200, 1000)))]
    for j, r in zip(fj, vf.pmap(fits, fj, timeout=90, total=ctx.pick(300, 3000))):
        judge(ctx, j, r)
    ctx.rule = ("one case = one chain of conversions (every intermediate value compared with the specification's) or one fit expressed in "
                "all four conventions and re-evaluated along a chain of changed conventions")
    ctx.sample(paths[0])


def judge(ctx, j, r):
    if r is None:
        return
    if isinstance(r, vf.Err):
        last = r.text.strip().splitlines()[-1]
        ctx.violation("raises " + last[:60], f"{j}: {last}\n{r.text[-1200:]}", j)
        return
    ctx.trace()
    ctx.case(r[1])
    for k, d in r[0]:
        ctx.violation(k, f"{j}: {d}", j)
