import os
import random
import shutil
import sys
import tempfile
from datetime import datetime
from pathlib import Path

import vf

LEVEL = "model_checking"

SEC = dict(lsq="least_squares_kwargs", fits="fits_kwargs", V="RT1_V", SRF="RT1_SRF", PROC="PROCESS_SPECS")
SEC["def"] = "defdict"
MODULE = """
from rt1.processing_config import rt1_processing_config
class processing_cfg(rt1_processing_config):
    def __init__(self, **kwargs):
        super().__init__(**kwargs)
        self.received = kwargs
    def reader(self, reader_arg):
        raise Exception("rt1_skip")
"""


def value(m, root):
    t = m[0]
    if t == "n":
        return None
    if t in "ibs":
        return m[1]
    if t == "f":
        return float(f"{m[1]}e{m[2]}")
    if t == "l":
        return [value(x, root) for x in m[1]]
    if t == "d":
        return datetime(*m[1])
    if t == "p":
        return Path(root) / m[1] if m[1] else Path(root)
    if t == "def":
        out = [m[1], value(m[2], root)]
        if len(m) > 3:
            out += [value(m[3], root), ([value(m[4], root)], [value(m[5], root)]), m[6]]
        return out
    raise ValueError(m)


def same(a, b):
    if isinstance(b, Path):
        return isinstance(a, Path) and a == b
    if type(a) is not type(b):
        return False
    if isinstance(b, dict):
        return set(a) == set(b) and all(same(a[k], b[k]) for k in b)
    if isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    return a == b


def model(opts, root, kind):
    """the dict of a scattering function; parts of a combination are collected"""
    out, parts = {}, {}
    for o in opts:
        if o["p"]:
            p = parts.setdefault(o["k"][0], [1, {}])
            if o["k"][3:] == "frac":
                p[0] = value(o["m"], root)
            else:
                p[1][o["k"][3:]] = value(o["m"], root)
        else:
            out[o["k"]] = value(o["m"], root)
    if out.get(f"{kind}_name") == f"LinComb{kind}":
        out[f"{kind}choices"] = parts
    return out


def cmp_model(got, want, kind):
    got = dict(got)
    k = f"{kind}choices"
    if k in want:
        a = list(got.pop(k, []))
        w = dict(want)
        b = list(w.pop(k).values())
        if len(a) != len(b):
            return False
        for x in a:
            for i, y in enumerate(b):
                if x[0] == y[0] and same(x[1], y[1]):
                    b.pop(i)
                    break
            else:
                return False
        return same(got, w)
    return same(got, want)


def plain(opts, root):
    return {o["k"]: value(o["m"], root) for o in opts}


def specs(exp, root):
    base = value(exp["base"], root)
    out = {}
    for o in exp["proc"]:
        if o["m"][0] == "ref":
            v = base + o["m"][1]
            if o["k"] == "rel":
                v = Path(v)
        else:
            v = value(o["m"], root)
        out[o["k"]] = v
    out["save_path"] = Path(root) / "save"
    return out


def check_cfg(cfg, exp, root, tag):
    for e in exp["cfgs"]:
        c = e["c"] or None
        got = cfg.get_config(c)
        for key, want in (("lsq_kwargs", plain(e["lsq"], root)), ("fits_kwargs", plain(e["fits"], root)),
                          ("defdict", plain(e["def"], root))):
            if not same(got[key], want):
                return f"{tag}: {key} of configuration {c}: {got[key]}, expected {want}"
        for kind in ("V", "SRF"):
            want = model(e[kind], root, kind)
            g = got["set_V_SRF"][f"{kind}_props"]
            if not cmp_model(g, want, kind):
                return f"{tag}: {kind} of configuration {c}: {g}, expected {want}"
    names = sorted(e["c"] for e in exp["cfgs"] if e["c"])
    if sorted(cfg.config_names) != names:
        return f"{tag}: configurations {cfg.config_names}, expected {names}"
    g, want = cfg.get_process_specs(), specs(exp, root)
    if not same(g, want):
        return f"{tag}: processing specifications {g}, expected {want}"


DEFAULTS = dict(sig0=False, dB=False, int_Q=True, verbose=2)


def check_fit(fit, exp, root, tag):
    cf = [e for e in exp["cfgs"] if e["c"]]
    if cf:
        if sorted(fit.config_names) != sorted(e["c"] for e in cf):
            return f"{tag}: configurations of the fit {fit.config_names}"
        fits = [(e, getattr(fit.configs, e["c"])) for e in cf]
    else:
        fits = [(exp["cfgs"][0], fit)]
    for e, f in fits:
        kw = plain(e["fits"], root)
        for k, d in DEFAULTS.items():
            if not same(getattr(f, k), kw.get(k, d)):
                return f"{tag}: {k} of the fit {e['c']}: {getattr(f, k)!r}, expected {kw.get(k, d)!r}"
        if not same(dict(f.lsq_kwargs), plain(e["lsq"], root)):
            return f"{tag}: lsq_kwargs of the fit {e['c']}: {f.lsq_kwargs}"
        if not cf and "ID" in kw and f.ID != kw["ID"]:
            return f"{tag}: ID of the fit {f.ID}, expected {kw['ID']}"
        want = plain(e["def"], root)
        if sorted(f.defdict.keys()) != sorted(want):
            return f"{tag}: parameters of the fit {e['c']}: {list(f.defdict.keys())}, expected {list(want)}"
        for p, w in want.items():
            v = f.defdict[p]
            if not (same(v.fitQ, w[0]) and same(v.val, w[1])):
                return f"{tag}: definition of {p}: {v.fitQ, v.val}, expected {w}"
            if len(w) > 2:
                lo, hi = [x[0] if isinstance(x, list) else x for x in (v.minval, v.maxval)]
                if not (same(v.freq, w[2]) and lo == w[3][0][0] and hi == w[3][1][0] and same(v.interpQ, w[4])):
                    return f"{tag}: definition of {p}: {v.freq, lo, hi, v.interpQ}, expected {w}"
        for kind in ("V", "SRF"):
            if not cmp_model(f.set_V_SRF[f"{kind}_props"], model(e[kind], root, kind), kind):
                return f"{tag}: {kind} of the fit {e['c']}: {f.set_V_SRF}"
    ids = [id(x) for _, f in fits for x in (f.lsq_kwargs, f.set_V_SRF, f.defdict)]
    if len(set(ids)) != len(ids):
        return f"{tag}: definitions shared between the configurations"


def section_name(s, c):
    return f"#config {c} {SEC[s]}" if c else SEC[s]


def write(path, opts, root, rng):
    secs = {}
    for s in SEC:
        secs[SEC[s]] = []
    opts = list(opts)
    rng.shuffle(opts)
    for o in opts:
        raw = o["r"].replace("@ROOT@", root)
        sep = rng.choice([" = ", "=", " : ", "    =  "])
        line = o["k"] + (sep + raw if o["v"] else rng.choice(["", " "]))
        secs.setdefault(section_name(o["s"], o["c"]), []).append(line + rng.choice(["", "  ", "\n# a comment", "\n"]))
    secs["PROCESS_SPECS"].append(f"path__save_path = {root}/save")
    secs["CONFIGFILES"] = [f"module__processing_cfg = {root}/cfg_module.py"]
    names = list(secs)
    rng.shuffle(names)
    with open(path, "w") as f:
        for n in names:
            f.write(f"[{n}]\n" + "\n".join(secs[n]) + "\n\n")


def nested(kw, root, rng):
    out = {}
    for o in kw:
        raw = o["r"].replace("@ROOT@", root)
        v = raw
        if raw in ("True", "False", "None") or (raw.lstrip("-").isdigit() and str(int(raw)) == raw):
            v = rng.choice([raw, eval(raw)])
        out.setdefault(section_name(o["s"], o["c"]), {})[o["k"]] = v
    return out


def replay(job):
    import multiprocessing as mp
    import logging
    logging.disable(logging.CRITICAL)
    hist, seed = job
    rng = random.Random(seed)
    root = os.path.realpath(tempfile.mkdtemp(prefix="vf_p11_"))
    mp.current_process().name = "MainProcess"    # (folders are prepared by the main process only)
    path0 = list(sys.path)
    try:
        with vf.silent():
            return run_history(hist, root, rng)
    finally:
        sys.path[:] = path0
        shutil.rmtree(root)


def run_history(hist, root, rng):
    from rt1.rtparse import RT1_configparser
    from rt1.rtprocess import RTprocess
    ini = os.path.join(root, "config.ini")
    with open(os.path.join(root, "cfg_module.py"), "w") as f:
        f.write(MODULE)
    proc = None
    for step, h in enumerate(hist):
        op = h["op"]
        tag = f"step {step} {op}"
        try:
            if op in ("begin", "edit"):
                write(ini, h["file"], root, rng)
                p = RT1_configparser(ini)
                e = check_cfg(p, h["exp"], root, tag) or check_fit(p.get_fitobject(), h["exp"], root, tag)
                if proc is None:
                    proc = RTprocess(ini, autocontinue=True)
            elif op == "session":
                proc = RTprocess(ini, autocontinue=True, init_kwargs=nested(h["kw"], root, rng))
                e = check_init(proc, h, root, tag)
            elif op == "override":
                kw = nested(h["kw"], root, rng)
                if h["replace"] and rng.random() < .5:
                    proc.override_config(**kw)
                else:
                    proc.override_config(override=h["replace"], **kw)
                e = check_init(proc, h, root, tag)
            elif op == "setup":
                given = open(ini).read()
                proc.copy = h["copy"]
                proc.setup()
                e = check_cfg(proc.cfg, h["exp"], root, tag) or check_fit(proc.parent_fit, h["exp"], root, tag)
                if not e and open(ini).read() != given:
                    e = f"{tag}: the given file was changed"
                if not e and Path(proc.dumppath) != Path(root) / "save" / h["d"]:
                    e = f"{tag}: folder {proc.dumppath}"
                want = specs(h["exp"], root)
                if not e and not same(proc.proc_cls.received, want):
                    e = f"{tag}: specifications handed to the processing class {proc.proc_cls.received}, expected {want}"
                if not e:
                    for k, v in want.items():
                        if not same(getattr(proc.proc_cls, k), v):
                            e = f"{tag}: attribute {k}"
                kept = Path(proc.dumppath) / "cfg" / "config.ini"
                if not e and h["copy"]:
                    e = check_cfg(RT1_configparser(kept), h["exp"], root, tag + " (copy in the folder)")
            if e:
                return step, e
        except vf.Timeout:
            raise
        except Exception as ex:
            import traceback
            return step, f"{tag}: {type(ex).__name__}: {ex} " + "".join(traceback.format_exc().splitlines()[-4:])
    return None


def check_init(proc, h, root, tag):
    want = {}
    for o in h["init"]:
        want.setdefault(section_name(o["s"], o["c"]), {})[o["k"]] = o["r"].replace("@ROOT@", root)
    got = {s: d for s, d in proc.init_kwargs.items() if d}
    if not same(got, want):
        return f"{tag}: overrides in effect {got}, expected {want}"


def run(ctx):
    base = ("CONSTANTS MaxOps = %d Random = %s Design = \"%s\" Options <- %s Width <- %s\n")
    small = lambda d, n=3: "SPECIFICATION SpecMC\n" + base % (n, "FALSE", d, "SmallOptions", "SmallWidth") + \
        "VIEW View\nINVARIANTS OneSource UsesCopy Arrives Untouched NoLeak\nPROPERTY OverridesExact\n"
    ctx.tlc("Config", deadlock=False, cfg_text=small("ok", ctx.pick(3, 4)), timeout=3000)
    for d in ("drop-sections", "old-first", "keep-always", "specs-of-given"):
        ctx.tlc("Config", deadlock=False, cfg_text=small(d), expect_error=True)
    gen = "SPECIFICATION SpecGen\n" + base
    hs = []
    for mx, n in ((0, 300), (6, 160)):
        out = ctx.tlc("Config", deadlock=False, workers=1, simulate=ctx.pick(n, n * 25), depth=mx + 4,
                      cfg_text=gen % (mx, "TRUE", "ok", "AllOptions", "AllWidth"), timeout=1500)
        hs += vf.printed(out)
    rng = random.Random(ctx.seed)
    jobs = [(h, rng.randrange(10**6)) for h in hs]
    for job, r in zip(jobs, vf.pmap(replay, jobs, timeout=120)):
        ctx.trace()
        ctx.case([[h["op"], h.get("file"), h.get("kw"), h.get("copy")] for h in job[0]])
        if isinstance(r, vf.Err):
            ctx.violation("error", r.text, job)
        elif r:
            ctx.violation("config-" + job[0][r[0]]["op"], r[1], job)
    ctx.rule = ("one case = one TLC-generated file (every option present or absent, every documented spelling) or a history "
                "of edits, overrides, sessions and set-ups of it; parser output, processing class, fit object and kept copy "
                "compared with the meaning the specification assigns, after every step")
    ctx.extra["steps"] = sum(len(h) for h in hs)
    ctx.sample([h["op"] for h in hs[-1]])
