"""Random RT1 model objects with symbolic / numeric definitions, and the values the specification's
expressions (spec/ModelGen.tla) give for them."""
import random

import numpy as np

import trees as T

VK = ["Rayleigh", "HenyeyGreenstein", "HGRayleigh"]
SK = ["Isotropic", "CosineLobe", "HenyeyGreenstein", "HG_nadirnorm"]
HAS_T = {"HenyeyGreenstein", "HGRayleigh", "HG_nadirnorm"}


def _angle_a(rng, std):
    if rng.random() < .6:
        return [float(v) for v in std]
    return [float(std[0]) * round(rng.uniform(.5, 1), 2), round(rng.uniform(.3, 1), 2), round(rng.uniform(.3, 1), 2)]


class Part:
    """one scattering function: side "V" or "S", kind, asymmetry parameter (number, symbol or expression)"""

    def __init__(self, side, rng, syms, kinds=None):
        import sympy as sp
        self.side = side
        self.kind = rng.choice(kinds or (VK if side == "V" else SK))
        self.i = rng.randint(0, 5) if self.kind == "CosineLobe" else 0
        self.ncoefs = rng.randint(1, 6)
        self.a = _angle_a(rng, [-1, 1, 1] if side == "V" else [1, 1, 1])
        if self.kind in ("Rayleigh", "Isotropic"):
            self.a = [-1., 1., 1.] if side == "V" else [1., 1., 1.]
        self.t, self.tval, self.dt = None, None, {}
        if self.kind in HAS_T:
            r = rng.random()
            if r < .35:
                self.t = round(rng.uniform(.1, .55), 4)
            elif r < .75 or not syms:
                self.t = sp.Symbol(rng.choice(["t1", "t2", "w"]))
                syms.add(str(self.t))
            else:
                s = rng.choice(sorted(syms))
                syms.add("t2")
                self.t = sp.Symbol(s) * sp.Rational(1, 2) + .1 * sp.Symbol("t2")

    def make(self):
        from rt1 import surface, volume
        m = volume if self.side == "V" else surface
        kw = {}
        if self.kind in HAS_T:
            kw.update(t=self.t, ncoefs=self.ncoefs, a=list(self.a))
        if self.kind == "CosineLobe":
            kw.update(i=self.i, ncoefs=self.ncoefs, a=list(self.a))
        return getattr(m, self.kind)(**kw)

    def key(self, kind):
        return (kind, self.side, self.kind, self.i, T.NO, T.NO)

    def tv(self, par):
        import sympy as sp
        if self.t is None:
            return .3
        if isinstance(self.t, sp.Basic):
            return np.asarray(sp.lambdify(sorted(par), self.t)(*[par[k] for k in sorted(par)])) + 0.
        return self.t

    def env(self, geo, par):
        n = ["av1", "av2", "av3"] if self.side == "V" else ["as1", "as2", "as3"]
        return dict(geo, t=self.tv(par), **dict(zip(n, self.a)))

    def val(self, TR, geo, par, kind="fn"):
        return T.ev(TR[self.key(kind)], self.env(geo, par)) + 0 * geo["t0"]

    def dsym(self, TR, geo, par, x):
        import sympy as sp
        if not isinstance(self.t, sp.Basic) or x not in map(str, self.t.free_symbols):
            return 0 * geo["t0"]
        d = sp.diff(self.t, sp.Symbol(x))
        d = np.asarray(sp.lambdify(sorted(par), d)(*[par[k] for k in sorted(par)])) + 0.
        return self.val(TR, geo, par, "dfnt") * d


class Func:
    """a scattering function or a linear combination: parts with weights (number, symbol or expression)"""

    def __init__(self, side, rng, syms, comb=None):
        import sympy as sp
        self.side = side
        self.comb = comb if comb is not None else rng.random() < .3
        n = rng.randint(1, 3) if self.comb else 1
        self.parts, self.w = [], []
        for _ in range(n):
            self.parts.append(Part(side, rng, syms))
            r = rng.random()
            if r < .5:
                self.w.append(round(rng.uniform(.1, 1), 3))
            elif r < .75:
                self.w.append(sp.Symbol("w"))
                syms.add("w")
            else:
                self.w.append(1 - sp.Symbol("w2"))
                syms.add("w2")
        if not self.comb:
            self.w = [1]

    def make(self, **kw):
        from rt1 import surface, volume
        if not self.comb:
            p = self.parts[0].make()
            for k, v in kw.items():
                setattr(p, k, v)
            return p
        ch = [[w, p.make()] for w, p in zip(self.w, self.parts)]
        if self.side == "V":
            return volume.LinCombV(Vchoices=ch, **kw)
        return surface.LinCombSRF(SRFchoices=ch, **kw)

    def wv(self, w, par):
        import sympy as sp
        if isinstance(w, sp.Basic):
            return np.asarray(sp.lambdify(sorted(par), w)(*[par[k] for k in sorted(par)])) + 0.
        return w

    def val(self, TR, geo, par, kind="fn"):
        return sum(self.wv(w, par) * p.val(TR, geo, par, kind) for w, p in zip(self.w, self.parts))

    def dsym(self, TR, geo, par, x):
        import sympy as sp
        r = 0 * geo["t0"]
        for w, p in zip(self.w, self.parts):
            r = r + self.wv(w, par) * p.dsym(TR, geo, par, x)
            if isinstance(w, sp.Basic):
                d = sp.diff(w, sp.Symbol(x))
                r = r + float(d) * p.val(TR, geo, par)
        return r

    def desc(self):
        return [[str(w), p.kind, p.i, str(p.t), p.a, p.ncoefs] for w, p in zip(self.w, self.parts)]


class ModelCase:
    def __init__(self, seed, mono=None, comb=None, small=False):
        rng = self.rng = random.Random(seed)
        self.seed = seed
        self.syms = set()
        self.V = Func("V", rng, self.syms, comb)
        self.S = Func("S", rng, self.syms, comb)
        self.mono = rng.random() < .6 if mono is None else mono
        n = rng.randint(1, 5)
        self.shape = (n,) if rng.random() < .6 else (n, rng.randint(1, 3))
        self.unused = rng.random() < .2
        if self.unused:
            self.syms.add("unused")
        self.r = np.random.RandomState(seed % (2 ** 31))
        u = lambda a, b: a + (b - a) * self.r.rand(*self.shape)
        self.t0 = u(.1, 1.1)
        self.tex = self.t0 if self.mono else u(.1, 1.1)
        p0 = round(rng.uniform(0, 6), 3) if rng.random() < .5 else 0.0
        self.p0 = np.full(self.shape, p0) if self.mono else u(0, 6)
        self.pex = self.p0 + np.pi if self.mono else u(0, 6)
        arr = lambda a, b: u(a, b) if rng.random() < .5 else float(round(rng.uniform(a, b), 4))
        self.q = dict(tau=arr(.05, 1.2), omega=arr(.05, .6), NormBRDF=arr(.1, 1.3), bsf=arr(0., .7) if rng.random() < .7 else 0.0,
                      I0=rng.choice([1.0, 1.0, 2.5]))
        self.par = {s: arr(.1, .55) for s in sorted(self.syms)}

    def geo(self):
        return dict(t0=self.t0, tex=self.tex, p0=self.p0, pex=self.pex, th=self.t0)

    def make(self, int_Q=False, geometry=None, copy=True):
        from rt1.rt1 import RT1
        c = (lambda v: np.array(v) if isinstance(v, np.ndarray) else v) if copy else (lambda v: v)
        q = self.q
        V = self.V.make(tau=c(q["tau"]), omega=c(q["omega"]))
        S = self.S.make(NormBRDF=c(q["NormBRDF"]))
        return RT1(q["I0"], c(self.t0), c(self.tex), c(self.p0), c(self.pex), V=V, SRF=S,
                   geometry=geometry or ("mono" if self.mono else "vvvv"), bsf=c(q["bsf"]),
                   param_dict={k: c(v) for k, v in self.par.items()}, int_Q=int_Q, verbosity=0)

    def env(self, TR, sym=None, orders=False):
        g = self.geo()
        e = dict(g, **self.q)
        e["p"], e["brdf"] = self.V.val(TR, g, self.par), self.S.val(TR, g, self.par)
        if sym:
            e["dp"], e["dbrdf"] = self.V.dsym(TR, g, self.par, sym), self.S.dsym(TR, g, self.par, sym)
        if orders:
            for n, k in enumerate(["fn", "dfn1", "dfn2"]):
                e[("p", n)], e[("brdf", n)] = self.V.val(TR, g, self.par, k), self.S.val(TR, g, self.par, k)
        return e

    def kinks(self):
        """positions too close to the kink of a cosine lobe"""
        bad = np.zeros(self.shape, bool)
        for p in self.S.parts:
            if p.kind == "CosineLobe":
                a = p.a
                x = (a[0] * np.cos(self.t0) * np.cos(self.tex) + a[1] * np.sin(self.t0) * np.sin(self.tex) * np.cos(self.p0) * np.cos(self.pex)
                     + a[2] * np.sin(self.t0) * np.sin(self.tex) * np.sin(self.p0) * np.sin(self.pex))
                bad |= abs(x) < 1e-4
        return bad

    def desc(self):
        return dict(seed=self.seed, V=self.V.desc(), S=self.S.desc(), mono=self.mono, shape=list(self.shape))
