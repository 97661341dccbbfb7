"""Datasets, variability rules and model definitions for the checks on rt1.rtfits.Fits."""
import datetime as dt
import logging
import random
import warnings

import numpy as np
import pandas as pd

warnings.simplefilter("ignore")
import scipy.optimize  # noqa: E402

# the solver of the code under test is called through this hook (bound before rt1 is imported)
_real_lsq = scipy.optimize.least_squares
SOLVER = {"fn": None}


def _lsq(*a, **k):
    f = SOLVER["fn"]
    return f(*a, **k) if f is not None else _real_lsq(*a, **k)


scipy.optimize.least_squares = _lsq

import rt1  # noqa: E402
rt1.log.setLevel(100)
logging.disable(logging.CRITICAL)
from rt1.rtfits import Fits, MultiFits  # noqa: E402
from rt1 import surface as rt1_s, volume as rt1_v  # noqa: E402
from rt1.rt1 import RT1  # noqa: E402

BASES = [dt.datetime(2019, 12, 26, 0), dt.datetime(2020, 2, 26, 6), dt.datetime(2015, 1, 1, 0),
         dt.datetime(2021, 8, 30, 13), dt.datetime(2016, 12, 30, 23)]
OFFS = [("H", 12, "12H"), ("D", 1, "D"), ("D", 2, "2D"), ("D", 5, "5D"), ("W", 1, "W"),
        ("W", 2, "2W"), ("M", 1, "M"), ("M", 2, "2M"), ("M", 3, "3M"), ("A", 1, "A"),
        ("MS", 1, "MS"), ("Q", 1, "Q"), ("H", 36, "36H")]


def calendar(t):
    o = t.toordinal()
    return dict(t=o * 24 + t.hour, d=o, w=(o - 1) // 7, m=t.year * 12 + t.month - 1, y=t.year)


def freq_of(rule, rng=None):
    """rule record -> the notation of defdict"""
    r = rng or random.Random(0)
    k, u, n = rule["k"], rule.get("u", ""), rule.get("n", 1)
    off = f"{n if n > 1 or u == 'H' else ''}{u}"
    if k == "const":
        return None
    if k == "index":
        return "index"
    if k == "man":
        return "manual"
    if k == "off":
        return off
    if k == "num":
        return r.choice([n, n, str(n)])
    base = off if k == "offman" else str(n)
    return r.choice([f"{base} + manual", f"manual + {base}", f"{base}+manual"])


LABELS = [lambda c: c, lambda c: 10 * c + 3, lambda c: c * 0.25 + 1, lambda c: -c, lambda c: f"g{c}",
          lambda c: 20200101 + c, lambda c: 10 ** 17 + c, lambda c: 1.0 * c, lambda c: 10 ** c,
          lambda c: c - 1.5]
LABEL_NAMES = ["int", "int3", "quarters", "negative", "text", "date", "large", "float", "powers", "halves"]


def rand_rule(rng, maxn=5):
    k = rng.choice(["const", "off", "off", "num", "man", "index", "offman", "numman"])
    if k in ("off", "offman"):
        u, n, _ = rng.choice(OFFS)
        return dict(k=k, u=u, n=n)
    return dict(k=k, u="", n=rng.randint(1, maxn) if k in ("num", "numman") else 1)


def rand_hours(rng, n):
    """hour offsets of n observations: clusters, repetitions, long gaps"""
    h, out = 0, []
    for _ in range(n):
        h += rng.choice([0, 0, 1, 6, 12, 24, 24, 48, 24 * 7, 24 * rng.randint(1, 40), 24 * 35]
                        if rng.random() < .7 else [0, 24])
        out.append(h)
    return out


def dataset(times, cols, rng):
    """a DataFrame with the given columns, presented in a random order of rows"""
    df = pd.DataFrame(cols, index=pd.DatetimeIndex(times))
    order = list(range(len(df)))
    mode = rng.random()
    if mode < .35:
        rng.shuffle(order)
    elif mode < .45:
        order.reverse()
    df = df.iloc[order]
    if rng.random() < .2:
        df.index.name = rng.choice(["date", "time"])
    return df


def code(values):
    """labels -> numbers in order of first appearance"""
    d = {}
    return [d.setdefault(v.item() if isinstance(v, np.generic) else v, len(d) + 1) for v in values]
