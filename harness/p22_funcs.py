"""State shared between the harness of P22 and the processing module of the scratch projects
(all processes of a run live in this process, see coop.py)."""
import multiprocessing as mp

from rt1.processing_config import rt1_processing_config

S = {}


def reset(**kw):
    S.clear()
    S.update(reads=[], errs=[], who=[], **kw)


def read(reader_arg):
    i = S["raw"].index(reader_arg["ID"])
    S["reads"].append(i + 1)
    S["who"].append(mp.current_process().name)
    k = S["kind"][i]
    if k == "skip":
        raise Exception("rt1_skip")
    if k == "data":
        raise Exception("rt1_data_error", "this is input %d" % (i + 1))
    if k == "exists":
        raise Exception("rt1_file_already_exists")
    if k == "other":
        raise KeyError("input %d" % (i + 1))
    if k == "empty":
        return S["ds"][i].iloc[:0]
    if k == "nodf":
        return "input %d" % (i + 1)
    ds = S["ds"][i].copy()
    if k == "fiterr":
        return ds.drop(columns="sig")
    if k == "aux":
        return ds, S["aux"][i].copy()
    if k == "auxnone":
        return ds, None
    if k == "auxlist":
        return ds, S["aux"][i].copy(), "something"
    return ds


def failed(ex, reader_arg):
    S["errs"].append(S["raw"].index(reader_arg["ID"]) + 1)


class processing_cfg(rt1_processing_config):
    def preprocess(self, **kw):
        return dict(reader_args=[dict(a) for a in S["args"]])

    def reader(self, reader_arg):
        return read(reader_arg)

    def exceptfunc(self, ex, reader_arg):
        failed(ex, reader_arg)
        return super().exceptfunc(ex, reader_arg)
