"""Export functions and processing module of the scratch projects of P19"""
import numpy as np
import pandas as pd

from p22_funcs import processing_cfg, S, reset  # noqa


def n_obs(fit):
    return len(fit.dataset)


def mean_sig(fit):
    return np.float64(fit.dataset.sig.mean())


def np_int(fit):
    return np.int32(len(fit.dataset) + 3)


def twice_sig(fit):
    return fit.dataset.sig * 2


def series_new(fit):
    return pd.Series(np.arange(len(fit.dataset), dtype=float) + fit.dataset.inc.values, index=fit.dataset.index)


def list_series(fit):
    return fit.dataset.inc ** 2


def first_tau(fit):
    return float(np.atleast_1d(fit.res_dict["tau"])[0]) if "tau" in fit.res_dict else -1.5


def spread(fit):
    return float(fit.dataset.sig.max() - fit.dataset.sig.min())
