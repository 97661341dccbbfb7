import random

import numpy as np

import rtgen
import trees as T
import vf

LEVEL = "model_checking"
TR = {}
GEOS = ["mono", "vvvv", "vvff", "fvfv", "vffv"]
CODE = dict(surface="surface", volume="volume")


def close(a, b, rel=1e-9, bad=None):
    try:
        a, b = np.broadcast_arrays(np.asarray(a, dtype=float), np.asarray(b, dtype=float))
    except Exception as ex:
        return repr(ex)[:100]
    m = np.nanmax(np.where(np.isfinite(b), abs(b), 0), initial=0)
    ok = abs(a - b) <= rel * (abs(b) + 1e-3 * m) + 1e-15
    ok |= ~np.isfinite(a) & ~np.isfinite(b)
    if bad is not None:
        ok |= np.broadcast_to(bad, ok.shape)
    if ok.all():
        return None
    k = np.unravel_index(np.argmax(~ok), ok.shape)
    return f"{a[k]!r} instead of {b[k]!r} at {tuple(map(int, k))}"


# ------------------------------------------------------------------ histories
class World:
    """current attribute versions of one model object, and the values they stand for"""

    def __init__(self, seed, n=3):
        rng = random.Random(seed)
        r = np.random.RandomState(seed % 2 ** 31)
        self.v = {}
        syms = set()
        self.fV, self.fS = [], []
        for _ in range(3):
            for side, L in (("V", self.fV), ("S", self.fS)):
                f = rtgen.Func(side, rng, syms, comb=rng.random() < .25)
                for p in f.parts:
                    p.ncoefs = min(p.ncoefs, 3)
                L.append(f)
        self.syms = sorted(syms)
        self.val = {}
        for a, lo, hi in [("t_0", .1, 1.1), ("t_ex", .1, 1.1), ("p_0", 0, 6), ("p_ex", 0, 6)]:
            self.val[a] = [np.full(n, rng.uniform(lo, hi)), np.full(n, rng.uniform(lo, hi)), lo + (hi - lo) * r.rand(n)]
        arr = lambda lo, hi: lo + (hi - lo) * r.rand(n) if rng.random() < .5 else rng.uniform(lo, hi)
        for a, lo, hi in [("tau", .05, 1.2), ("omega", .05, .6), ("NormBRDF", .1, 1.3), ("bsf", 0, .7)]:
            self.val[a] = [arr(lo, hi) for _ in range(3)]
        self.val["I0"] = [1.0, 2.5, .7]
        self.val["par"] = [{s: arr(.1, .55) for s in self.syms + ["unused"]} for _ in range(3)]
        self.lb = "sympy" if rng.random() < .25 else None
        self.v = {a: 0 for a in ("geometry", "t_0", "t_ex", "p_0", "p_ex", "V", "SRF", "tau", "omega", "NormBRDF",
                                 "bsf", "I0", "par", "keys", "int_Q")}

    def g(self, a):
        x = self.val[a][self.v[a]]
        return x.copy() if isinstance(x, np.ndarray) else x

    def geometry(self):
        return GEOS[self.v["geometry"]]

    def params(self):
        k = self.syms if self.v["keys"] == 0 else list(reversed(self.syms)) + ["unused"] if self.v["keys"] == 1 else \
            ["unused"] + self.syms
        d = self.val["par"][self.v["par"]]
        return {s: d[s].copy() if isinstance(d[s], np.ndarray) else d[s] for s in k}

    def mk(self, a):
        f = (self.fV if a == "V" else self.fS)[self.v[a]]
        return f.make(tau=self.g("tau"), omega=self.g("omega")) if a == "V" else f.make(NormBRDF=self.g("NormBRDF"))

    def fresh(self):
        from rt1.rt1 import RT1
        kw = {} if self.lb is None else dict(lambda_backend=self.lb)
        return RT1(self.g("I0"), self.g("t_0"), self.g("t_ex"), self.g("p_0"), self.g("p_ex"), V=self.mk("V"), SRF=self.mk("SRF"),
                   geometry=self.geometry(), bsf=self.g("bsf"), param_dict=self.params(), int_Q=bool(self.v["int_Q"]),
                   verbosity=0, **kw)

    def assign(self, R, a, v):
        self.v[a] = v
        if a == "geometry":
            R.geometry = self.geometry()
            if R.geometry != "mono":
                R.t_ex, R.p_ex = self.g("t_ex"), self.g("p_ex")
        elif a in ("V", "SRF"):
            setattr(R, a, self.mk(a))
        elif a in ("tau", "omega"):
            setattr(R.V, a, self.g(a))
        elif a == "NormBRDF":
            R.SRF.NormBRDF = self.g(a)
        elif a == "par" and v == 1:
            R.param_dict.update({k: x for k, x in self.params().items()})
        elif a in ("par", "keys"):
            R.param_dict = self.params()
        elif a == "int_Q":
            R.int_Q = bool(v)
        else:
            setattr(R, a, self.g(a))

    def tree(self, comp):
        mono = self.geometry() == "mono"
        t0, p0 = self.g("t_0"), self.g("p_0")
        geo = dict(t0=t0, p0=p0, th=t0, tex=t0 if mono else self.g("t_ex"), pex=p0 + np.pi if mono else self.g("p_ex"))
        e = dict(geo, tau=self.g("tau"), omega=self.g("omega"), NormBRDF=self.g("NormBRDF"), bsf=self.g("bsf"), I0=self.g("I0"))
        par = self.params()
        e["p"], e["brdf"] = self.fV[self.v["V"]].val(TR, geo, par), self.fS[self.v["SRF"]].val(TR, geo, par)
        return T.ev(TR[("val", comp, "", 0, T.NO, T.NO)], e) + 0 * t0


def ask(R, q, keys):
    if q == "jacobian":
        return [np.asarray(x) for x in R.jacobian(sig0=True, dB=True, param_list=["tau", "omega", "NormBRDF", "bsf"] + keys)]
    if q == "slope":
        return [R.tot_slope(), R.surface_curv(sig0=True), R.volume_slope(dB=True)]
    if q == "calc":
        return list(R.calc())
    return [getattr(R, q)()]


def replay(job):
    seed, hist = job
    w = World(seed)
    fails, done = [], []
    with vf.silent():
        R = w.fresh()
        for op, a, v in hist:
            if op == "set":
                w.assign(R, a, v)
                done.append(f"{a}:={v}")
                continue
            if op != "eval":
                continue
            done.append(a)
            got = ask(R, a, w.syms)
            want = ask(w.fresh(), a, w.syms)
            if len(got) != len(want):
                fails.append((f"{a} of a changed object", f"{done}: {len(got)} values instead of {len(want)}"))
                break
            for i, (x, y) in enumerate(zip(got, want)):
                d = close(x, y)
                if d:
                    fails.append((f"{a} of a changed object differs from a new one", f"after {done}: value {i}: {d}"))
            if a in ("surface", "volume", "calc"):
                s, q = w.tree("surface"), w.tree("volume")
                pairs = [(got[0], s if a == "surface" else q)] if a != "calc" else [(got[1], s), (got[2], q)]
                for i, (x, y) in enumerate(pairs):
                    d = close(x, y, 1e-7)
                    if d:
                        fails.append((f"{a} is not the model", f"after {done}: contribution {i}: {d}"))
                if a == "calc":
                    d = close(got[0], sum(np.asarray(x) for x in got[1:]))
                    if d:
                        fails.append(("the total is not the sum of the contributions", f"after {done}: {d}"))
            if fails:
                break
    return fails, len(done)


# --------------------------------------------------------------- arrangements
def sub(c, idx, shape=None, style=0):
    """the same model case restricted to the observations idx"""
    import copy
    d = copy.copy(c)
    shp = (len(idx),) if shape is None else shape

    def take(v):
        if not isinstance(v, np.ndarray):
            return v
        x = v.ravel()[idx].reshape(shp)
        if style == 1:                       # a non-contiguous view
            y = np.empty(tuple(2 * s for s in shp))
            y[tuple(slice(None, None, 2) for _ in shp)] = x
            x = y[tuple(slice(None, None, 2) for _ in shp)]
        if style == 2:
            x = np.asfortranarray(x)
        if style == 3:
            x = x.copy()
            x.setflags(write=False)
        return x
    for a in ("t0", "tex", "p0", "pex"):
        setattr(d, a, take(getattr(c, a)))
    d.q = {k: take(v) for k, v in c.q.items()}
    d.par = {k: take(v) for k, v in c.par.items()}
    d.shape = shp
    return d


def snapshot(R, c):
    return ([np.array(x) for x in (c.t0, c.tex, c.p0, c.pex)], {k: np.array(v) for k, v in c.q.items()},
            {k: np.array(v) for k, v in c.par.items()}, list(c.par))


def evaluate(c, intq, what):
    """values of all requested outputs as flat arrays, and whether the inputs were left alone"""
    before = snapshot(None, c)
    R = c.make(int_Q=intq, copy=False)
    o = list(R.calc())
    if what:
        o += list(R.jacobian(sig0=True, dB=False, param_list=["omega", "tau", "bsf"]))
    after = snapshot(None, c)
    same = all(np.array_equal(x, y) for x, y in zip(before[0], after[0])) and before[3] == after[3] \
        and all(np.array_equal(before[k][n], after[k][n]) for k in (1, 2) for n in before[k])
    return [np.broadcast_to(np.asarray(x, dtype=float), c.shape).ravel() for x in o], same


def arrange(job):
    seed, arrs = job
    rng = random.Random(seed)
    fails = []
    intq = rng.random() < .4
    c = rtgen.ModelCase(seed, small=True)
    n = 4
    for p in c.V.parts + c.S.parts:
        p.ncoefs = min(p.ncoefs, 3)
    r = np.random.RandomState(seed % 2 ** 31)
    u = lambda a, b: a + (b - a) * r.rand(n)
    c.shape = (n,)
    c.t0 = u(.1, 1.2)
    if rng.random() < .15:
        c.t0[rng.randrange(n)] = 0.0              # nadir
    c.tex = c.t0 if c.mono else u(.1, 1.2)
    c.p0 = np.full(n, float(np.ravel(c.p0)[0])) if c.mono else u(0, 6)
    c.pex = c.p0 + np.pi if c.mono else u(0, 6)
    arr = lambda a, b: u(a, b) if rng.random() < .6 else rng.uniform(a, b)
    c.q = dict(tau=arr(.05, 1.2), omega=arr(.05, .6), NormBRDF=arr(.1, 1.3), bsf=arr(0., .7), I0=rng.choice([1.0, 2.0, u(.5, 2)]))
    if isinstance(c.q["tau"], np.ndarray) and rng.random() < .3:
        c.q["tau"][rng.randrange(n)] = 0.0        # no vegetation
    c.par = {s: arr(.1, .55) for s in c.par}
    with vf.silent():
        ref, same = evaluate(c, intq, True)
        if not same:
            fails.append(("inputs are modified", "full arrays"))
        d = close(ref[0], sum(ref[1:4] if intq else ref[1:3]))
        if d:
            fails.append(("the total is not the sum of the contributions", d))
        e = c.env(TR)
        for i, comp in ((1, "surface"), (2, "volume")):
            d = close(ref[i], T.ev(TR[("val", comp, "", 0, T.NO, T.NO)], e), 1e-7)
            if d:
                fails.append((f"{comp} is not the model", d))
        # every observation on its own
        runs = [[[i] for i in range(n)]] + arrs
        for k, B in enumerate(runs):
            out = [np.full(n, np.nan) for _ in ref]
            for b in B:
                shp = (len(b),)
                if k and len(b) in (2, 3) and rng.random() < .5:
                    shp = rng.choice([(1, len(b)), (len(b), 1)])
                if len(b) == 4 and rng.random() < .7:
                    shp = rng.choice([(2, 2), (4, 1), (1, 4), (2, 1, 2)])
                v, same = evaluate(sub(c, b, shp, rng.randrange(4)), intq, True)
                if not same:
                    fails.append(("inputs are modified", f"arrangement {B}"))
                for o, x in zip(out, v):
                    o[b] = x
            for j, (x, y) in enumerate(zip(out, ref)):
                d = close(x, y)
                if d:
                    fails.append(("values depend on the arrangement of the observations", f"{B}, output {j}: {d}"))
            if fails:
                break
        # scalars versus arrays of the same value
        full = sub(c, list(range(n)))
        full.q = {k: np.full(n, v) if not isinstance(v, np.ndarray) else v for k, v in full.q.items()}
        full.par = {k: np.full(n, v) if not isinstance(v, np.ndarray) else v for k, v in full.par.items()}
        v, same = evaluate(full, intq, True)
        for j, (x, y) in enumerate(zip(v, ref)):
            d = close(x, y)
            if d:
                fails.append(("values depend on broadcasting", f"output {j}: {d}"))
    return fails, dict(c.desc(), int_Q=intq)


# ----------------------------------------------------------------- interaction
def legcoefs(part, t, n):
    """projection of the specification's function of the scattering angle on the Legendre polynomials"""
    from numpy.polynomial.legendre import leggauss
    x, w = leggauss(400)
    if part.kind == "CosineLobe":
        x, w = (x + 1) / 2, w / 2               # the function vanishes for negative arguments
    a = part.a[0]
    f = T.ev(TR[("fnx", part.side, part.kind, part.i, T.NO, T.NO)], dict(x=x, t=t, as1=a)) + 0 * x
    return [(2 * k + 1) / 2 * float(np.sum(w * f * T.ev(TR[("legpoly", "", "", k, T.NO, T.NO)], dict(x=x)))) for k in range(n)]


FIXEDN = dict(Rayleigh=3, Isotropic=1)


def groups(func):
    """number of coefficients every part contributes: the largest among the parts with the same angle"""
    n = [FIXEDN.get(p.kind, p.ncoefs) for p in func.parts]
    return [max(m for m, q in zip(n, func.parts) if list(q.a) == list(p.a)) for p in func.parts]


def expansion(func, par, ang):
    tot = 0
    for w, p, n in zip(func.w, func.parts, groups(func)):
        tv = float(np.ravel(p.tv(par))[0])
        c = legcoefs(p, tv, n)
        a = ["av1", "av2", "av3"] if p.side == "V" else ["as1", "as2", "as3"]
        x = T.ev(TR[("angin" if p.side == "V" else "angout", "", "", 0, T.NO, T.NO)], dict(ang, **dict(zip(a, p.a))))
        tot = tot + float(np.ravel(func.wv(w, par))[0]) * sum(
            ck * T.ev(TR[("legpoly", "", "", k, T.NO, T.NO)], dict(x=x)) for k, ck in enumerate(c))
    return tot


def interaction(seed):
    from numpy.polynomial.legendre import leggauss
    rng = random.Random(seed)
    c = rtgen.ModelCase(seed)
    for a in ("t0", "tex", "p0", "pex"):
        setattr(c, a, np.ravel(getattr(c, a))[:1])
    c.q = {k: float(np.ravel(v)[0]) for k, v in c.q.items()}
    c.par = {k: float(np.ravel(v)[0]) for k, v in c.par.items()}
    c.shape = (1,)
    geo = "mono" if c.mono else rng.choice(GEOS[1:])
    with vf.silent():
        R = c.make(int_Q=True, geometry=geo)
        got = float(np.ravel(R.interaction())[0])
    x, w = leggauss(200)
    x, w = (x + 1) / 2, w / 2
    ths = np.arccos(x)[:, None]
    phs = (np.arange(48) * 2 * np.pi / 48)[None, :]

    def fint(t0, p0, tex, pex):
        ang = dict(t0=t0, p0=p0, tex=tex, pex=pex, ths=ths, phs=phs)
        e = dict(ang, tau=c.q["tau"], pexp=expansion(c.V, c.par, ang), bexp=expansion(c.S, c.par, ang))
        v = T.ev(TR[("fint", "", "", 0, T.NO, T.NO)], e) + 0 * ths * phs
        return float(np.sum(w[:, None] * v) * 2 * np.pi / 48)
    t0, tex, p0, pex = (float(v[0]) for v in (c.t0, c.tex, c.p0, c.pex))
    e = dict(c.q, t0=t0, tex=tex, F1=fint(t0, p0, tex, pex), F2=fint(tex, pex, t0, p0))
    want = float(T.ev(TR[("inter", "", "", 0, T.NO, T.NO)], e))
    d = close(got, want, 1e-5)
    return ([("the interaction contribution is not the integral of the expansions", f"geometry {geo}: {d}")] if d else []), dict(c.desc(), geo=geo)


def run(ctx):
    rng = random.Random(ctx.seed)
    ctx.tlc("ModelObj", deadlock=False, timeout=900,
            cfg_text="SPECIFICATION Spec\nCONSTANTS Vers = 2\nDepth = %d\nEmit = FALSE\n"
                     "Only = {\"geometry\", \"t_0\", \"t_ex\", \"p_0\", \"V\", \"SRF\", \"keys\", \"int_Q\"}\nINVARIANT Fresh\nVIEW View\n" % ctx.pick(12, 30))
    arr = vf.printed(ctx.tlc("Arrange", deadlock=False, workers=1, timeout=300,
                             cfg_text="SPECIFICATION Spec\nCONSTANT N = 4\nINVARIANT Independent\n"), "ARR")
    out = ctx.tlc("ModelObj", simulate=ctx.pick(70, 900), depth=14, deadlock=False, timeout=600,
                  cfg_text="SPECIFICATION Spec\nCONSTANTS Vers = 3\nDepth = 12\nEmit = TRUE\nOnly = {%s}\n" % ", ".join(
                      '"%s"' % a for a in ["geometry", "t_0", "t_ex", "p_0", "p_ex", "V", "SRF", "tau", "omega", "NormBRDF", "bsf", "I0",
                                           "par", "keys", "int_Q"]))
    hists = vf.printed(out, "BEH")
    TR.update(T.get(ctx, ["fn", "val", "leg", "int"]))
    jobs = [(rng.randrange(10 ** 9), h) for h in hists]
    aj = [(rng.randrange(10 ** 9), rng.sample(arr, ctx.pick(3, 8))) for _ in range(ctx.pick(220, 4000))]
    ij = [rng.randrange(10 ** 9) for _ in range(ctx.pick(160, 2500))]
    for name, fn, js in (("history", replay, jobs), ("arrangement", arrange, aj), ("interaction", interaction, ij)):
        for j, r in zip(js, vf.pmap(fn, js, timeout=120, total=ctx.pick(300, 4000))):
            if r is None:
                continue
            if isinstance(r, vf.Err):
                last = r.text.strip().splitlines()[-1]
                ctx.violation(f"{name} raises " + last[:60], f"{j}: {r.text[-1500:]}", j)
                continue
            ctx.trace()
            ctx.case([name, j])
            for k, d in r[0]:
                ctx.violation(k, f"{j if name == 'history' else r[1]}: {d}", j)
    ctx.rule = ("one case = one generated history of assignments and evaluations of a model object (every evaluation compared with a new "
                "object and with the specification's expressions), one model evaluated in several arrangements, or one interaction "
                "contribution compared with the numerical integral of the specification's expansions")
    if hists:
        ctx.sample(hists[0])
    ctx.sample(arr[0])
