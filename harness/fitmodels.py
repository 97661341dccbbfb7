"""Model definitions for Fits objects together with their closed forms."""
import random

import numpy as np

import refmodel as M

AV, AS = [-1., 1., 1.], [1., 1., 1.]
RANGES = dict(omega=(.05, .6), tau=(.05, .9), NormBRDF=(.1, 1.2), bsf=(.02, .6), t=(.1, .6), t_v=(.05, .55),
              t_s=(.1, .6), x=(.05, .7), y2=(.1, .8), k=(.2, 1.2), n1=(.2, .9), s=(.12, .5), u=(.12, .5), z=(.2, .9), om=(.05, .5), fr=(.15, .8))


def _mono(inc, a, p0=0.0):
    return M.angle(inc, inc, p0, p0 + M.PI, a)


class Model:
    """name, parameters, set_V_SRF (dict form) and closed form f(values, inc) -> (tot, surf, vol)"""

    def __init__(self, name, params, props, vals, vp, sp, call=None):
        self.name, self.params, self.props = name, params, props
        self.vals, self.vp, self.sp, self.call = vals, vp, sp, call

    def f(self, v, inc):
        w = dict(omega=None, tau=None, NormBRDF=1.0, bsf=0.0)
        w.update(self.vals(v))
        mu = np.cos(inc)
        s = M.surface(mu, mu, w["tau"], w["NormBRDF"], self.sp(v, inc), v.get("bsf", 0.0))
        q = M.volume(mu, mu, w["tau"], w["omega"], self.vp(v, inc), v.get("bsf", 0.0))
        return s + q, s, q


def _c_a(omega, tau, t, NormBRDF, **kw):
    from rt1 import surface, volume
    return (volume.Rayleigh(omega=omega, tau=tau),
            surface.HG_nadirnorm(t=t, ncoefs=4, a=AS, NormBRDF=NormBRDF))


def _c_d(om, x, k, n1, **kw):
    from rt1 import surface, volume
    return (volume.HenyeyGreenstein(omega=om, tau=k * x ** 2 + 0.1, t=0.3, ncoefs=3),
            surface.CosineLobe(i=4, ncoefs=4, a=AS, NormBRDF=n1 * 0.5 + 0.1))


def _c_e(t_v, **kw):
    from rt1 import surface, volume
    return (volume.HGRayleigh(omega=0.2, tau=0.4, t=t_v, ncoefs=3), surface.Isotropic(NormBRDF=.3))


MODELS = [
    Model("a", ["omega", "tau", "t", "NormBRDF", "bsf"],
          dict(V_props=dict(V_name="Rayleigh", tau="tau", omega="omega"),
               SRF_props=dict(SRF_name="HG_nadirnorm", t="t", ncoefs=4, NormBRDF="NormBRDF", a=AS)),
          lambda v: dict(omega=v["omega"], tau=v["tau"], NormBRDF=v["NormBRDF"]),
          lambda v, i: M.vol("Rayleigh", _mono(i, AV)),
          lambda v, i: M.srf("HG_nadirnorm", _mono(i, AS), v["t"]), _c_a),
    Model("b", ["omega", "x", "y2", "t_v", "n1"],
          dict(V_props=dict(V_name="HenyeyGreenstein", tau="x * y2 + 0.1", omega="omega", t="t_v", ncoefs=3, a=AV),
               SRF_props=dict(SRF_name="CosineLobe", i=3, ncoefs=4, NormBRDF="n1", a=AS)),
          lambda v: dict(omega=v["omega"], tau=v["x"] * v["y2"] + .1, NormBRDF=v["n1"]),
          lambda v, i: M.vol("HenyeyGreenstein", _mono(i, AV), v["t_v"]),
          lambda v, i: M.srf("CosineLobe", _mono(i, AS), i=3)),
    Model("c", ["om", "k", "x", "t_s", "fr", "NormBRDF"],
          dict(V_props=dict(V_name="LinCombV", tau="k * x", omega="om ** 2",
                            Vchoices=[["fr", dict(V_name="Rayleigh")],
                                      ["1 - fr", dict(V_name="HenyeyGreenstein", t=.2, ncoefs=3, a=AV)]]),
               SRF_props=dict(SRF_name="HenyeyGreenstein", t="t_s", ncoefs=5, NormBRDF="NormBRDF", a=AS)),
          lambda v: dict(omega=v["om"] ** 2, tau=v["k"] * v["x"], NormBRDF=v["NormBRDF"]),
          lambda v, i: v["fr"] * M.vol("Rayleigh", _mono(i, AV))
          + (1 - v["fr"]) * M.vol("HenyeyGreenstein", _mono(i, AV), .2),
          lambda v, i: M.srf("HenyeyGreenstein", _mono(i, AS), v["t_s"])),
    Model("d", ["om", "x", "k", "n1", "bsf"], None,
          lambda v: dict(omega=v["om"], tau=v["k"] * v["x"] ** 2 + .1, NormBRDF=v["n1"] * .5 + .1),
          lambda v, i: M.vol("HenyeyGreenstein", _mono(i, AV), .3),
          lambda v, i: M.srf("CosineLobe", _mono(i, AS), i=4), _c_d),
    Model("e", ["t_v"], None,
          lambda v: dict(omega=.2, tau=.4, NormBRDF=.3),
          lambda v, i: M.vol("HGRayleigh", _mono(i, AV), v["t_v"]),
          lambda v, i: M.srf("Isotropic", _mono(i, AS)), _c_e),
    # one symbol in several definitions
    Model("f", ["s"],
          dict(V_props=dict(V_name="HenyeyGreenstein", tau="s", omega="s / 2", t="s", ncoefs=3, a=AV),
               SRF_props=dict(SRF_name="HenyeyGreenstein", t="s", ncoefs=3, NormBRDF="s", a=AS)),
          lambda v: dict(omega=v["s"] / 2, tau=v["s"], NormBRDF=v["s"]),
          lambda v, i: M.vol("HenyeyGreenstein", _mono(i, AV), v["s"]),
          lambda v, i: M.srf("HenyeyGreenstein", _mono(i, AS), v["s"])),
    Model("g", ["tau", "u", "z"],
          dict(V_props=dict(V_name="HGRayleigh", tau="tau", omega="u * z", t="u", ncoefs=3, a=AV),
               SRF_props=dict(SRF_name="LinCombSRF", NormBRDF="1 - u",
                              SRFchoices=[["z", dict(SRF_name="HG_nadirnorm", t="u", ncoefs=3, a=AS)],
                                          [.5, dict(SRF_name="Isotropic")]])),
          lambda v: dict(omega=v["u"] * v["z"], tau=v["tau"], NormBRDF=1 - v["u"]),
          lambda v, i: M.vol("HGRayleigh", _mono(i, AV), v["u"]),
          lambda v, i: v["z"] * M.srf("HG_nadirnorm", _mono(i, AS), v["u"]) + .5 * M.srf("Isotropic", _mono(i, AS))),
]


def pick_value(rng, p, q=6):
    lo, hi = RANGES[p]
    return round(lo + (hi - lo) * rng.random(), q)
