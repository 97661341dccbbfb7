import random

import numpy as np

import trees as T
import vf

LEVEL = "model_checking"
TR = {}
KNOWN = "tau-volume-derivative"


def same(got, want, shape, bad=None, rel=1e-7):
    """None or a description of the difference"""
    try:
        got = np.broadcast_to(np.asarray(got, dtype=float), shape)
    except Exception as ex:
        return "not numeric: %r %s" % (ex, str(got)[:80])
    want = np.broadcast_to(np.asarray(want, dtype=float), shape)
    ok = (abs(got - want) <= rel * (abs(want) + 1e-3 * np.nanmax(np.where(np.isfinite(want), abs(want), 0), initial=0)) + 1e-12)
    ok |= ~np.isfinite(want) & ~np.isfinite(got)
    if bad is not None:
        ok |= bad
    if ok.all():
        return None
    k = np.unravel_index(np.argmax(~ok), shape)
    return f"got {got[k]!r}, the derivative of the model is {want[k]!r}"


def observe(seed):
    import rtgen
    c = rtgen.ModelCase(seed)
    fails, n = [], 0
    bad = c.kinks()
    with vf.silent():
        R = c.make()
        if seed % 3 == 0:
            R.calc()
        RI = c.make(int_Q=True) if seed % 4 == 0 else None      # nothing of it is evaluated: expansions stay lazy
        for cv in T.CONVS:
            for comp, f in [("surface", R.surface), ("volume", R.volume)]:
                if cv == T.NO:
                    d = same(f(), T.ev(TR[("val", comp, "", 0, cv, T.NO)], c.env(TR)), c.shape, bad)
                    n += 1
                    if d:
                        fails.append((f"value of the {comp} contribution", d))
            keys = ["tau", "omega", "NormBRDF", "bsf"] + sorted(c.par)
            random.Random(seed).shuffle(keys)
            if seed % 2:
                keys = keys[:3]
            J = R.jacobian(sig0=cv[0], dB=cv[1], param_list=keys)
            if len(J) != len(keys):
                fails.append(("jacobian", "wrong number of entries"))
            JI = RI.jacobian(sig0=cv[0], dB=cv[1], param_list=keys) if RI is not None else None
            for j, k in enumerate(keys):
                sym = k if k in c.par else None
                want = T.ev(TR[("jac", "par" if sym else k, "", 0, cv, T.NO)], c.env(TR, sym))
                n += 1
                d = same(J[j], want, c.shape, bad)
                if d and k == "tau" and not same(J[j], want + T.ev(TR[("jacknown", k, "", 0, cv, T.NO)], c.env(TR)), c.shape, bad):
                    fails.append((KNOWN, f"{k} sig0, dB={cv}: {d}"))
                elif d:
                    fails.append((f"derivative with respect to {'a function parameter' if sym else k}", f"{k} sig0, dB={cv}: {d}"))
                d = JI is not None and same(JI[j], J[j], c.shape, bad)
                if d:
                    fails.append(("jacobian with the interaction term enabled", f"{k} sig0, dB={cv}: {d}"))
            if c.mono:
                e = c.env(TR, orders=True)
                for comp in ("surface", "volume", "tot"):
                    for order, name in [(1, "slope"), (2, "curv")]:
                        want = T.ev(TR[("slope", comp, "", order, cv, T.NO)], e)
                        got = getattr(R, f"{comp}_{name}")(sig0=cv[0], dB=cv[1])
                        n += 1
                        b = bad
                        if comp == "surface" and cv[1]:
                            b = bad | (np.broadcast_to(e["brdf"], c.shape) <= 1e-12)
                        d = same(got, want, c.shape, b, 1e-6)
                        if d:
                            fails.append((f"{name} of {comp}", f"sig0, dB={cv}: {d}"))
    return fails, n, c.desc()


def observe_fit(job):
    """the jacobian handed to the solver"""
    import fitcommon as F
    import fitgen as G
    times, labs, rules, seed, opt = job
    c = G.Case(times, labs, rules, seed, interp=False, **opt)
    n = len(times)
    rng = random.Random(seed + 1)
    rec = []
    with vf.silent():
        fit = c.fits(int_Q=False)

        def solver(fun, x0, jac="2-point", bounds=(-np.inf, np.inf), **kw):
            m = len(x0)
            lo, hi = np.broadcast_to(bounds[0], m), np.broadcast_to(bounds[1], m)
            for q in range(2):
                xs = np.array([a + (b - a) * (.15 + .7 * (j + .5 * rng.random()) / m) for j, (a, b) in enumerate(zip(lo, hi))])
                r = np.array(fun(xs), dtype=float)
                dep = [set() for _ in r]
                for s in range(m):
                    y = xs.copy()
                    y[s] += .01
                    for k in np.flatnonzero(abs(np.asarray(fun(y)) - r) > 1e-11 * (1 + abs(r))):
                        dep[k].add(s)
                fun(xs)
                J = jac(xs)
                J = np.asarray(J.todense()) if hasattr(J, "todense") else np.asarray(J, dtype=float)
                rec.append((xs, r, dep, J))
            import scipy.optimize as so
            xs, r, dep, J = rec[-1]
            return so.OptimizeResult(x=xs, fun=r, jac=J, cost=.5 * float(r @ r), grad=J.T @ r, nfev=1, njev=1, status=1,
                                     success=True, message="stub", optimality=0., active_mask=xs * 0)
        F.SOLVER["fn"] = solver
        try:
            fit.performfit()
        finally:
            F.SOLVER["fn"] = None
        res = fit.res_dict
    owner = []
    for p in c.names_def:
        owner += [p] * len(np.atleast_1d(res[p]))
    fails, cnt = [], 0
    outer0 = TR[("outer", "", "", 0, (c.sig0, c.dB), T.NO)]
    outer1 = TR[("outer", "", "", 1, (c.sig0, c.dB), T.NO)]
    for xs, r, dep, J in rec:
        if J.shape != (len(r), len(xs)):
            return [("shape of the jacobian", f"{J.shape}")], 1, c.model.name
        used = set()
        for k in range(len(r)):
            hit = None
            vals = {owner[s]: xs[s] for s in dep[k]}
            if len(vals) < len(c.names):          # insensitive to some parameter (e.g. a lobe that vanishes)
                continue
            for i in range(n):
                if i in used:
                    continue
                v = c.params(i, vals)
                env = dict(v, th=c.inc[i], inc=c.inc[i])
                w = c.w[i] if c.w else 1.0
                lin = float(T.ev(TR[("fit", c.model.name, "", 0, T.NO, T.NO)], env))
                want = w * (float(T.ev(outer0, dict(env, lin=lin))) - c.sig[i])
                if abs(want - r[k]) < 1e-7 * (1 + abs(want)):
                    hit = i
                    break
            if hit is None:
                fails.append(("residual", f"residual {k} is the one of no observation"))
                continue
            used.add(hit)
            row, known = np.zeros(len(xs)), np.zeros(len(xs))
            for s in dep[k]:
                d = float(T.ev(TR[("fit", c.model.name, owner[s], 0, T.NO, T.NO)], env))
                extra = float(T.ev(TR[("fitknown", c.model.name, owner[s], 0, T.NO, T.NO)], env))
                row[s] = w * float(T.ev(outer1, dict(env) | {("lin", 0): lin, ("lin", 1): d}))
                known[s] = w * float(T.ev(outer1, dict(env) | {("lin", 0): lin, ("lin", 1): d + extra}))
            cnt += len(row)
            d = same(J[k], row, (len(row),), rel=1e-6)
            if d and not same(J[k], known, (len(row),), rel=1e-6):
                fails.append((KNOWN, f"model {c.model.name} parameter {owner} row {k}: {d}"))
            elif d:
                fails.append(("jacobian of a fit", f"model {c.model.name} parameter {owner} row {k} sig0, dB={c.sig0, c.dB}: {d}"))
    k = slopes(c, fit, fails)
    return fails, cnt + k, c.model.name


def slopes(c, fit, fails):
    """slope and curvature of the model with the fitted values, for every observation"""
    n = len(c.times)
    if len(set(c.inc)) < n:
        return 0
    with vf.silent():
        got = fit._calc_slope_curv()
        pos = np.asarray(fit._idx_assigns)
        vals = {p: np.atleast_1d(v) for p, v in fit.res_dict.items()}
        at = {p: [list(dict.fromkeys(g)).index(x) for x in g] for p, g in ((p, list(fit.param_dyn_dict[p])) for p in vals)}
        where = [c.inc.index(x) if x in c.inc else -1 for x in (float(v) for v in fit.dataset["inc"])]
    if sorted(where) != list(range(n)):
        fails.append(("slopes of a fit", "the dataset is not the given one"))
        return 1
    cnt, seen = 0, set()
    res = {key: np.broadcast_to(np.asarray(got[key], dtype=float), pos.shape) for key in got}
    for (a, b), i in np.ndenumerate(pos):
        if i in seen:
            continue
        seen.add(i)
        o = where[i]                # the generated observation (equal time stamps may come in another order)
        env = dict(c.params(o, {p: vals[p][at[p][i]] for p in vals}), th=c.inc[o])
        lin = [float(T.ev(TR[("fitslope", c.model.name, "", q, T.NO, T.NO)], env)) for q in range(3)]
        env.update({("lin", q): lin[q] for q in range(3)})
        for q, name in ((1, "slope"), (2, "curv")):
            want = float(T.ev(TR[("outerth", "", "", q, (c.sig0, c.dB), T.NO)], env))
            cnt += 1
            d = same(res[name][a, b], want, (), rel=1e-6)
            if d:
                fails.append((f"{name} of a fit", f"model {c.model.name} observation {i} sig0, dB={c.sig0, c.dB}: {d}"))
    if len(seen) != n:
        fails.append(("slopes of a fit", "observations are missing"))
    return cnt


def run(ctx):
    rng = random.Random(ctx.seed)
    ctx.tlc("ExprLaws", deadlock=False, timeout=3000,
            cfg_text="SPECIFICATION Spec\nCONSTANT MaxSize = %d\nINVARIANTS Taylor Mixed Chain Free\n" % ctx.pick(4, 5))
    TR.update(T.get(ctx, ["fn", "dfn", "slope", "jac", "val", "fit", "fitslope"]))
    jobs = [rng.randrange(10 ** 9) for _ in range(ctx.pick(250, 6000))]
    for j, r in zip(jobs, vf.pmap(observe, jobs, timeout=60, total=ctx.pick(400, 6000))):
        if isinstance(r, vf.Err):
            last = r.text.strip().splitlines()[-1]
            ctx.violation("raises " + last[:60], f"model seed {j}: {last}\n{r.text[-1500:]}", j)
            continue
        ctx.trace()
        ctx.case(r[2])
        for k, d in r[0]:
            ctx.violation(k, f"{r[2]}: {d}", r[2])
    import fitgen as G
    fj = []
    for _ in range(ctx.pick(300, 6000)):
        t, l, ru, s = G.random_spec(rng, nmax=7)
        fj.append((t, l, ru, s, {}))
    for _ in range(ctx.pick(80, 1500)):
        t, l, ru, s = G.random_spec(rng, nmax=6, NPs=(1,))
        fj.append((t, l, ru, s, dict(model="efg")))
    for j, r in zip(fj, vf.pmap(observe_fit, fj, timeout=60, total=ctx.pick(400, 6000))):
        if isinstance(r, vf.Err):
            last = r.text.strip().splitlines()[-1]
            ctx.violation("fit raises " + last[:60], f"{j}: {last}\n{r.text[-1500:]}", j)
            continue
        ctx.trace()
        ctx.case(["fit", j[3], r[2]])
        for k, d in r[0]:
            ctx.violation(k, f"{j}: {d}", j)
    ctx.rule = ("one case = one model object (all derivatives, units, slopes, curvatures at all its array elements) or one fit "
                "(its Jacobian at two points), compared with the derivatives of the specification's model expression")
    ctx.sample(dict(items=len(TR)))
