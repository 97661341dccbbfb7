import builtins
import os
import random
import shutil
import sys
import tempfile
import types
from pathlib import Path

import vf

LEVEL = "model_checking"

PLACE = dict(cfg="cfg/config.ini", mod="cfg/proc_module.py", mod2="cfg/second.py", db="results/fit_db.h5",
             dump="dumps/site.dump", log="cfg/run.log", notes="notes.txt")


def config(v, root, folder, ov=0):
    return f"""
[fits_kwargs]
sig0 = True
[least_squares_kwargs]
max_nfev = {v}
[defdict]
omega = [True, 0.1, None, 0.01, 0.5]
tau = [False, 0.5]
[RT1_V]
V_name = Rayleigh
tau = tau
omega = omega
[RT1_SRF]
SRF_name = Isotropic
NormBRDF = 0.1
[CONFIGFILES]
module__processing_cfg = {root}/given/proc_module.py
module__second = {root}/given/second.py
[PROCESS_SPECS]
path__save_path = {root}/save
dumpfolder = {folder}
int__version = {v}
int__extra = {ov}
"""


def module(v):
    return f"""
from rt1.processing_config import rt1_processing_config
VERSION = {v}
class processing_cfg(rt1_processing_config):
    module_version = {v}
    def __init__(self, **kwargs):
        super().__init__(**kwargs)
    def reader(self, reader_arg):
        raise Exception("rt1_skip")
"""


class Escape(BaseException):
    pass


def guard(root):
    """deleting functions only work below the scratch folder; anything else is reported"""
    import rt1.rtprocess as rp
    real = shutil.rmtree

    def rmtree(path, *a, **k):
        p = os.path.realpath(path)
        if not p.startswith(root + os.sep):
            raise Escape(f"removal of {path}")
        return real(path, *a, **k)

    def one(f):
        def g(path, *a, **k):
            if isinstance(path, (str, os.PathLike)) and k.get("dir_fd") is None and \
                    not os.path.realpath(path).startswith(root):
                raise Escape(f"{f.__name__} of {path}")
            return f(path, *a, **k)
        return g
    saved = {n: getattr(os, n) for n in ("remove", "unlink", "rmdir", "rename", "replace")}
    for n, f in saved.items():
        setattr(os, n, one(f))
    # the module under test sees its own copy of shutil with the guarded function
    fake = types.SimpleNamespace(**{k: getattr(shutil, k) for k in dir(shutil) if not k.startswith("__")})
    fake.rmtree = rmtree
    rp.shutil = fake
    shutil.rmtree = rmtree

    def undo():
        shutil.rmtree = real
        rp.shutil = shutil
        for n, f in saved.items():
            setattr(os, n, f)
    return undo


def snapshot(root):
    out = {}
    for d, ds, fs in os.walk(root):
        for f in fs:
            p = os.path.join(d, f)
            out[os.path.relpath(p, root)] = open(p, "rb").read()
        for x in ds:
            out[os.path.relpath(os.path.join(d, x), root) + "/"] = b""
    return out


def replay(job):
    import multiprocessing as mp
    import logging
    logging.disable(logging.CRITICAL)
    hist, seed, nested = job
    sys.dont_write_bytecode = True
    if os.getuid() == 0:
        os.setgid(65534)
        os.setuid(65534)              # (the real file system is out of reach of whatever the code does)
    root = os.path.realpath(tempfile.mkdtemp(prefix="vf_p12_"))
    path0 = list(sys.path)
    name0 = mp.current_process().name
    real_rmtree = shutil.rmtree
    undo = guard(root)
    try:
        with vf.silent():
            return run_history(hist, root, random.Random(seed), nested)
    except Escape as e:
        return 0, f"something outside the processing folder was touched: {e}"
    finally:
        undo()
        mp.current_process().name = name0
        sys.path[:] = path0
        real_rmtree(root)


def run_history(hist, root, rng, nested):
    import multiprocessing as mp
    from rt1.rtprocess import RTprocess
    folder = {"d0": "d0", "d1": "deep/d1" if nested else "d1", "d2": "d0x"}
    given = Path(root) / "given"
    save = Path(root) / "save"
    given.mkdir()
    cv = mv = 1

    def put_given():
        for d, f in folder.items():
            (given / d).mkdir(exist_ok=True)
            (given / d / "config.ini").write_text(config(cv, root, f))
        (given / "proc_module.py").write_text(module(mv))
        (given / "second.py").write_text(f"VERSION = {mv}\n")
    put_given()

    def where(f):
        return save / "beside.txt" if f[0] == "other" else save / folder[f[0]] / PLACE[f[1]]
    before = {}
    for step, h in enumerate(hist):
        op, out = h["op"], h["out"]
        tag = f"step {step} {op} { {k: v for k, v in h.items() if k not in ('fs', 'out', 'there', 'op')} }"
        if op == "given":
            cv, mv = h["cv"], h["mv"]
            put_given()
        elif op in ("write", "delete"):
            p = where(h["f"])
            if op == "delete":
                p.unlink()
            else:
                p.parent.mkdir(parents=True, exist_ok=True)
                c = [x[2] for x in h["fs"] if x[:2] == h["f"]][0]
                k = h["f"][1]
                p.write_text(config(c // 10, root, folder[h["f"][0]]) if k == "cfg" else
                             module(c) if k == "mod" else f"VERSION = {c}\n" if k == "mod2" else f"content {c}")
        else:
            prompts = []
            answers = [h["a"], h["b"]] if op == "setup" else []

            def ask(msg=""):
                prompts.append(str(msg))
                if len(prompts) > len(answers):
                    raise Escape("an unexpected prompt")
                return answers[len(prompts) - 1]
            proc = RTprocess(given / h["d"] / "config.ini", autocontinue=h.get("auto", False), copy=h.get("copy", True))
            if h["ov"]:
                proc.override_config(PROCESS_SPECS=dict(int__extra=h["ov"]))
            mp.current_process().name = "MainProcess" if op == "setup" else "RTprocess-3"
            old = builtins.input
            builtins.input = ask
            stopped = False
            try:
                proc.setup()
            except SystemExit:
                stopped = True
            except vf.Timeout:
                raise
            except Exception as ex:
                return step, f"{tag}: {type(ex).__name__}: {ex}"
            finally:
                builtins.input = old
                mp.current_process().name = "MainProcess"
            if len(prompts) != out["prompts"]:
                return step, f"{tag}: {len(prompts)} prompts, expected {out['prompts']}"
            if stopped != (out["res"] == "stop"):
                return step, f"{tag}: {'stopped' if stopped else 'went on'}, expected {out['res']}"
            if stopped:
                if hasattr(proc, "proc_cls"):
                    return step, f"{tag}: the processing class is set up although the set-up was aborted"
            else:
                c = proc.proc_cls
                nf = proc.parent_fit.lsq_kwargs["max_nfev"]
                got = (10 * c.version + c.extra, 10 * nf + c.extra, c.module_version)
                want = (out["cfg"], out["cfg"], out["mod"])
                if got != want:
                    return step, f"{tag}: configuration / model / module in use {got}, expected {want}"
                if Path(proc.dumppath) != save / folder[h["d"]]:
                    return step, f"{tag}: folder {proc.dumppath}"
                for x in ("results", "cfg", "dumps"):
                    if op == "setup" and not (save / folder[h["d"]] / x).is_dir():
                        return step, f"{tag}: no folder {x}"
        # the complete tree
        want = {tuple(x[:2]): x[2] for x in h["fs"]}
        now = snapshot(save) if save.exists() else {}
        files = {k: v for k, v in now.items() if not k.endswith("/")}
        names = {str(where(f).relative_to(save)): (f, c) for f, c in want.items()}
        if set(files) != set(names):
            return step, f"{tag}: files {sorted(set(files) ^ set(names))} (unexpected or missing)"
        prev = {tuple(x[:2]): x[2] for x in hist[step - 1]["fs"]} if step else {}
        for n, (f, c) in names.items():
            if prev.get(f) == c and n in before and op not in ("write",) and \
                    not (out["dec"] == "remove" and f[0] == h["d"]) and \
                    not (f[1] == "cfg" and op == "setup" and h["ov"] and f[0] == h["d"]):
                if files[n] != before[n]:
                    return step, f"{tag}: content of {n} changed"
            elif op == "setup":
                text = files[n].decode()
                if f[1] == "mod" and f"VERSION = {c}\n" not in text:
                    return step, f"{tag}: copy of the module"
                if f[1] == "cfg":
                    from rt1.rtparse import RT1_configparser
                    s = RT1_configparser(save / n).get_process_specs()
                    if 10 * s["version"] + s["extra"] != c:
                        return step, f"{tag}: copied configuration holds {s['version']}, {s['extra']}, expected {c}"
        gone = {k for k in before if k.endswith("/") and k not in now}
        for g in gone:
            if op == "setup" and not (out["dec"] == "remove" and (g + "/").startswith(folder[h["d"]] + "/")):
                return step, f"{tag}: folder {g} vanished"
        if out["dec"] == "remove":
            base = folder[h["d"]] + "/"
            extra = {k for k in now if k.startswith(base) and k.endswith("/")} - {base, base + "cfg/", base + "results/", base + "dumps/"}
            if extra:
                return step, f"{tag}: {extra} not removed"
        before = {} if not save.exists() else snapshot(save)
    return None


def run(ctx):
    base = "CONSTANTS Dirs = {%s} MaxOps = %d Design = \"%s\" Random = %s\nSPECIFICATION Spec\n"
    props = "PROPERTIES NothingLost StopsClean RemovesAll UsesKept\nVIEW View\n"
    ctx.tlc("Folder", deadlock=False, cfg_text=base % ('"d0"', 4, "ok", "FALSE") + props, timeout=3000)
    ctx.tlc("Folder", deadlock=False, cfg_text=base % ('"d0", "d1"', ctx.pick(3, 4), "ok", "FALSE") + props, timeout=3000)
    for d in ("no-second-question", "unclear-continues", "removes-all", "overwrites"):
        ctx.tlc("Folder", deadlock=False, cfg_text=base % ('"d0", "d1"', 4, d, "FALSE") + props, expect_error=True)
    hs = []
    for dirs, mx, n in (('"d0"', 5, 500), ('"d0", "d1"', 9, 500), ('"d0", "d1", "d2"', 16, 150)):
        out = ctx.tlc("Folder", deadlock=False, workers=1, simulate=ctx.pick(n, n * 20), depth=mx + 3,
                      cfg_text=base % (dirs, mx, "ok", "TRUE"), timeout=1500)
        hs += vf.printed(out)
    rng = random.Random(ctx.seed)
    jobs = [(h, rng.randrange(10**6), rng.random() < .5) for h in hs]
    n = 0
    for job, r in zip(jobs, vf.pmap(replay, jobs, timeout=120)):
        ctx.trace()
        ctx.case([[h["op"], h.get("d"), h.get("a"), h.get("b"), h.get("auto"), h.get("copy"), h.get("ov"), h.get("f")] for h in job[0]])
        n += sum(h["op"] == "setup" for h in job[0])
        if isinstance(r, vf.Err):
            ctx.violation("error", r.text, job)
        elif r:
            h = job[0][r[0]]
            ctx.violation("folder-" + (h["out"]["dec"] if h["op"] == "setup" else h["op"]), r[1], job)
    ctx.rule = ("one case = one TLC-generated history of set-ups (answers, options, overrides), written results, edits and "
                "deletions, replayed in a scratch folder; the complete tree, the prompts and the definitions in use compared "
                "after every step")
    ctx.extra["setups"] = n
    ctx.sample([[h["op"], h.get("a"), h.get("b")] for h in hs[-1]])
