import random

import numpy as np

import p14
import rtgen
import trees as T
import vf
from p14 import GEOS, close, expansion, groups

LEVEL = "model_checking"


def build(spec, side, rng):
    """a combination as described by the specification"""
    import sympy as sp
    syms = set()
    kinds = rng.sample(rtgen.VK if side == "V" else rtgen.SK, 2)
    std = [-1., 1., 1.] if side == "V" else [1., 1., 1.]
    other = [std[0] * round(rng.uniform(.5, .95), 2), round(rng.uniform(.3, .9), 2), round(rng.uniform(.3, .9), 2)]
    for i in rng.sample(range(3), rng.choice([0, 1, 2])):   # (agreeing in some of the values only)
        other[i] = std[i]
    cls = [std, other]
    f = rtgen.Func(side, rng, syms, comb=True)
    f.parts, f.w = [], []
    for q in spec:
        p = rtgen.Part(side, rng, syms, [kinds[q["k"] - 1]])
        p.ncoefs = q["n"]
        p.a = list(cls[q["a"] - 1]) if p.kind not in ("Rayleigh", "Isotropic") else list(std)
        f.parts.append(p)
        if q["w"] == 1:
            f.w.append(round(rng.uniform(.1, 1.5), 3))
        elif q["w"] == 2:
            f.w.append(sp.Symbol("w"))
            syms.add("w")
        else:
            f.w.append(rng.choice([1 - sp.Symbol("w2"), sp.Symbol("w2") * sp.Symbol("w"), sp.Symbol("w") ** 2 / 3, 1]))
            syms.update(["w", "w2"])
    par = {s: rng.uniform(.1, .55) for s in sorted(syms)}
    return f, par


def legval(obj, geo, name, par, ths, phs):
    """value of a Legendre expansion at the scattered directions"""
    import sympy as sp
    A = [np.full(2, geo[k]) for k in ("t0", "tex", "p0", "pex")]
    e = sp.sympify(obj.legexpansion(*A, name)).doit()
    names = ["theta_0", "theta_ex", "phi_0", "phi_ex", "theta_s", "phi_s"]
    extra = set(map(str, e.free_symbols)) - set(names) - set(par)
    if extra:
        raise ValueError("unknown symbols %s" % extra)
    fn = sp.lambdify([sp.Symbol(n) for n in names + sorted(par)], e, modules=["numpy"])
    v = fn(geo["t0"], geo["tex"], geo["p0"], geo["pex"], ths, phs, *[par[k] for k in sorted(par)])
    return v + 0 * ths


def recreate(fV, fS, V, S, par):
    """the functions obtained from their own definition through a fit object"""
    from rt1.rtfits import Fits
    dd = {k: [True, .2, None, ([0.], [1.]), False] for k in par}
    fit = Fits(sig0=False, dB=False, defdict=dd, set_V_SRF=dict(V_props=V.init_dict, SRF_props=S.init_dict))
    return fit.V, fit.SRF


def observe(job):
    spec, seed = job
    rng = random.Random(seed)
    fails = []
    side = rng.choice("VS")
    f, par = build(spec, side, rng)
    g, gpar = build([dict(k=1, a=1, n=2, w=1)], "S" if side == "V" else "V", rng)
    allpar = dict(gpar, **par)
    keys = list(allpar)
    rng.shuffle(keys)
    sp_ = {k: allpar[k] for k in keys}
    r = np.random.RandomState(seed % 2 ** 31)
    n = 4
    mono = rng.random() < .3
    u = lambda a, b: a + (b - a) * r.rand(n)
    geo = dict(t0=u(.05, 1.4), tex=u(.05, 1.4), p0=u(0, 6.2), pex=u(0, 6.2))
    geo["th"] = geo["t0"]
    ev = lambda o: np.asarray((o.p if side == "V" else o.brdf)(geo["t0"], geo["tex"], geo["p0"], geo["pex"], param_dict=dict(sp_)))
    bad = np.zeros(n, bool)
    for p in f.parts:
        a = p.a
        x = np.cos(geo["t0"]) * np.cos(geo["tex"]) * a[0] + np.sin(geo["t0"]) * np.sin(geo["tex"]) * (
            a[1] * np.cos(geo["p0"]) * np.cos(geo["pex"]) + a[2] * np.sin(geo["p0"]) * np.sin(geo["pex"]))
        bad |= (abs(x) < 1e-9) & (p.kind == "CosineLobe")
    kw = dict(tau=.3, omega=.2) if side == "V" else {}
    with vf.silent():
        parts = [p.make() for p in f.parts]
        before = [(p.ncoefs, list(p.a), str(p.init_dict)) for p in parts]
        o = make(f, side, parts, kw)
        want = f.val(p14.TR, geo, allpar)
        d = close(ev(o), want, 1e-8, bad)
        if d:
            fails.append(("a combination is not the weighted sum of its parts", d))
        perm = list(range(len(f.parts)))
        rng.shuffle(perm)
        f2 = perm_of(f, perm)
        o2 = make(f2, side, None, kw)
        d = close(ev(o2), ev(o), 1e-9, bad)
        if d:
            fails.append(("a combination depends on the order of its parts", f"{perm}: {d}"))
        if o.ncoefs != max(groups(f)) or o2.ncoefs != o.ncoefs:
            fails.append(("number of coefficients of a combination", f"{o.ncoefs}"))
        # expansions at the geometries, mono included
        ths, phs = r.rand(3) * 1.5, r.rand(3) * 6
        # (an angle that repeats is needed to treat it as fixed)
        s0, s1 = f.parts[0].make(), None
        single = one(f, 0)
        for name in GEOS + ["ffff"]:
            e = {k: float(v[0]) for k, v in geo.items()}
            if name == "mono":
                e.update(tex=e["t0"], pex=e["p0"] + np.pi)
            ang = dict(t0=e["t0"], p0=e["p0"], tex=e["tex"], pex=e["pex"], ths=ths, phs=phs)
            for nm, ob, fu in (("a combination", o, f), ("a permuted combination", o2, f2), ("a function", s0, single)):
                got = legval(ob, e, name, allpar, ths, phs)
                d = close(got, expansion(fu, allpar, ang), 1e-6)
                if d:
                    fails.append((f"Legendre expansion of {nm}", f"geometry {name}: {d}"))
        if [(p.ncoefs, list(p.a), str(p.init_dict)) for p in parts] != before:
            fails.append(("the parts are modified", str(before)))
        # re-creation
        V, S = (o, make(g, "S", None, {})) if side == "V" else (make(g, "V", None, dict(tau=.3, omega=.2)), o)
        V2, S2 = recreate(f, g, V, S, allpar)
        o3 = V2 if side == "V" else S2
        d = close(ev(o3), want, 1e-8, bad)
        if d:
            fails.append(("a function re-created from its definition", d))
        e = {k: float(v[0]) for k, v in geo.items()}
        d = close(legval(o3, e, "vvvv", allpar, ths, phs), legval(o, e, "vvvv", allpar, ths, phs), 1e-9)
        if d:
            fails.append(("the expansion of a function re-created from its definition", d))
    return fails, dict(seed=seed, side=side, f=f.desc(), perm=perm)


def make(f, side, parts, kw):
    from rt1 import surface, volume
    parts = parts or [p.make() for p in f.parts]
    ch = [[w, p] for w, p in zip(f.w, parts)]
    return volume.LinCombV(Vchoices=ch, **kw) if side == "V" else surface.LinCombSRF(SRFchoices=ch, **kw)


def perm_of(f, perm):
    import copy
    g = copy.copy(f)
    g.parts, g.w = [f.parts[i] for i in perm], [f.w[i] for i in perm]
    return g


def one(f, i):
    g = perm_of(f, [i])
    g.w = [1]
    return g


def run(ctx):
    rng = random.Random(ctx.seed)
    out = ctx.tlc("Comb", deadlock=False, timeout=1500,
                  cfg_text="SPECIFICATION Spec\nCONSTANTS MaxParts = %d\nKinds = {1, 2}\nClasses = {1, 2}\nMaxN = 3\nWeights = {1, 2, 3}\nEmitMod = %d\nSampled = %d\n"
                           "INVARIANTS Same OrderFree Split Single Emit\n" % ctx.pick((2, 40, 2500), (3, 12, 0)))
    specs = vf.printed(out, "COMB")
    p14.TR.update(T.get(ctx, ["fn", "leg"]))
    specs = rng.sample(specs, min(len(specs), ctx.pick(90, 4500)))
    specs += [[dict(k=k, a=a, n=n, w=w)] for k in (1, 2) for a in (1, 2) for n in (1, 3, 6, 8) for w in (1, 2)]
    jobs = [(s, rng.randrange(10 ** 9)) for s in specs]
    for j, r in zip(jobs, vf.pmap(observe, jobs, timeout=120, total=ctx.pick(500, 6000))):
        if r is None:
            continue
        if isinstance(r, vf.Err):
            last = r.text.strip().splitlines()[-1]
            ctx.violation("raises " + last[:60], f"{j}: {r.text[-1500:]}", j)
            continue
        ctx.trace()
        ctx.case(r[1])
        for k, d in r[0]:
            ctx.violation(k, f"{r[1]}: {d}", j)
    ctx.rule = ("one case = one linear combination generated from the specification: value, permuted value, Legendre expansion in six "
                "geometry types, number of coefficients and re-creation, compared with the weighted sums of the specification's parts")
    if specs:
        ctx.sample(specs[0])
