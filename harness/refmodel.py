"""Closed forms of the zeroth/first-order model (without interaction), used as the numerical
interpretation of the model expressions of the specifications.  Plain numpy, no rt1 code."""
import math

import numpy as np

PI = math.pi


def angle(t0, tex, p0, pex, a):
    return (a[0] * np.cos(t0) * np.cos(tex)
            + a[1] * np.sin(t0) * np.sin(tex) * np.cos(p0) * np.cos(pex)
            + a[2] * np.sin(t0) * np.sin(tex) * np.sin(p0) * np.sin(pex))


def hg(x, t):
    return (1 - t ** 2) / (1 + t ** 2 - 2 * t * x) ** 1.5


def vol(kind, x, t=None):
    """phase functions (normalised to one over the sphere)"""
    if kind == "Rayleigh":
        return 3 / (16 * PI) * (1 + x ** 2)
    if kind == "HenyeyGreenstein":
        return hg(x, t) / (4 * PI)
    if kind == "HGRayleigh":
        return 3 / (8 * PI) / (2 + t ** 2) * (1 + x ** 2) * hg(x, t)
    raise KeyError(kind)


def srf(kind, x, t=None, i=None, a0=1.0):
    if kind == "Isotropic":
        return 1 / PI + 0 * x
    if kind == "CosineLobe":
        return np.where(x > 0, np.abs(x), 0.0) ** i / PI if i else 1 / PI * np.where(x == x, 1.0, 1.0)
    if kind == "HenyeyGreenstein":
        return hg(x, t) / PI
    if kind == "HG_nadirnorm":
        n = 4 * ((1 - t ** 2) * (1 - t * (-t + a0) - np.sqrt((1 + t ** 2 - 2 * a0 * t) * (1 + t ** 2)))
                 / (2 * a0 ** 2 * t ** 2 * np.sqrt(1 + t ** 2 - 2 * a0 * t)))
        return hg(x, t) / PI / n
    raise KeyError(kind)


def surface(mu0, muex, tau, norm, brdf, bsf=0.0, I0=1.0):
    b = I0 * mu0 * brdf
    return norm * ((1 - bsf) * np.exp(-tau / mu0 - tau / muex) * b + bsf * b)


def volume(mu0, muex, tau, omega, p, bsf=0.0, I0=1.0):
    return (1 - bsf) * I0 * omega * mu0 / (mu0 + muex) * (1 - np.exp(-tau / mu0 - tau / muex)) * p


def units(val, inc, sig0, dB):
    if sig0:
        val = 4 * PI * np.cos(inc) * val
    if dB:
        val = 10 * np.log10(val)
    return val
