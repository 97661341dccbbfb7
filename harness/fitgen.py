"""Random and model-generated fits: a dataset, a model definition and roles of its parameters."""
import datetime as dt
import random

import numpy as np

import fitcommon as F
import fitmodels as FM


class Case:
    """times, labs[i][p], rules (fitted parameters), seed; everything else is derived from the seed"""

    def __init__(self, times, labs, rules, seed, interp=True, model=None, **opt):
        rng = self.rng = random.Random(seed)
        self.times, self.labs, self.rules, self.seed = times, labs, rules, seed
        n, NP = len(times), len(rules)
        cand = [m for m in FM.MODELS if len(m.params) >= NP and (model is None or m.name in model)]
        self.model = m = rng.choice(cand)
        self.names = rng.sample(m.params, NP)
        self.sig0, self.dB = opt.get("sig0", rng.random() < .5), opt.get("dB", rng.random() < .5)
        rest = [p for p in m.params if p not in self.names]
        self.const, self.auxc, cols = {}, {}, {}
        for p in rest:
            if rng.random() < .6:
                self.const[p] = FM.pick_value(rng, p)
            else:
                self.auxc[p] = [FM.pick_value(rng, p) for _ in range(n)]
                cols[p] = self.auxc[p]
        self.inc = [round(.15 + .5 * rng.random(), 5) for _ in range(n)]
        self.sig = [round(rng.uniform(-25, -4), 4) if self.dB else round(rng.uniform(.01, .4), 5) for _ in range(n)]
        self.w = [round(rng.uniform(.5, 3), 3) for _ in range(n)] if rng.random() < opt.get("weights", .6) else None
        cols.update(inc=self.inc, sig=self.sig)
        if self.w:
            cols["data_weights"] = self.w
        self.lo, self.hi, self.start, self.aux, self.col, self.interp = {}, {}, {}, {}, {}, {}
        self.freq = {}
        for p, (q, r) in enumerate(zip(self.names, rules)):
            a, b = FM.RANGES[q]
            self.lo[q], self.hi[q] = [round(a * .5 + .0001 * (p + 1), 5)], [round(b * 1.1 + .001 * (p + 1), 5)]
            if rng.random() < .35:
                self.aux[q] = True
                self.col[q] = [rng.randint(1, 20) for _ in range(n)]
                cols[q + "_start"] = [a + (b - a) * c / 25 for c in self.col[q]]
                self.start[q] = "auxiliary"
            else:
                self.aux[q] = False
                self.start[q] = round(a + (b - a) * (.3 + .02 * p), 6)
            if "man" in r["k"]:
                cols[q + "_dyn"] = [labs[i][p] for i in range(n)]
            self.freq[q] = F.freq_of(r, rng)
            self.interp[q] = bool(interp and "man" not in r["k"] and rng.random() < .25)
        order = list(cols)
        rng.shuffle(order)
        self.cols = {c: cols[c] for c in order}
        self.order = list(m.params)
        rng.shuffle(self.order)
        # slots follow the order of definition
        self.names_def = [p for p in self.order if p in self.names]

    def defdict(self, bounds=None):
        d = {}
        for p in self.order:
            if p in self.names:
                lo, hi = (bounds or {}).get(p, (self.lo[p], self.hi[p]))
                d[p] = [True, self.start[p], self.freq[p], (list(lo), list(hi)), self.interp[p]]
            elif p in self.const:
                d[p] = [False, self.const[p]]
            else:
                d[p] = [False, "auxiliary"]
        return d

    def frame(self):
        return F.dataset(self.times, self.cols, random.Random(self.seed + 7))

    def svs(self):
        m, rng = self.model, random.Random(self.seed + 3)
        if m.props is None or (m.call is not None and rng.random() < .4):
            return m.call
        return m.props

    def fits(self, bounds=None, int_Q=False, **kw):
        return F.Fits(sig0=self.sig0, dB=self.dB, dataset=self.frame(), defdict=self.defdict(bounds),
                      set_V_SRF=self.svs(), int_Q=int_Q, **kw)

    def params(self, i, fitted):
        """values of all parameters for observation i; fitted: name -> value"""
        v = dict(self.const)
        v.update({p: c[i] for p, c in self.auxc.items()})
        v.update(fitted)
        return v

    def ref(self, i, fitted):
        import refmodel as M
        return float(M.units(self.model.f(self.params(i, fitted), np.float64(self.inc[i]))[0],
                             self.inc[i], self.sig0, self.dB))


def random_spec(rng, nmax=10, NPs=(1, 2, 2, 3), bases=None):
    n = rng.randint(1, nmax)
    NP = rng.choice(NPs)
    base = rng.choice(F.BASES)
    times = [base + dt.timedelta(hours=h) for h in F.rand_hours(rng, n)]
    nl = rng.choice([1, 2, 3])
    labs = [[rng.randint(0, nl) for _ in range(NP)] for _ in range(n)]
    return times, labs, [F.rand_rule(rng) for _ in range(NP)], rng.randrange(10 ** 9)
