"""Scratch processing projects: RTprocess / RTresults run for real, with all processes of the
pool replaced by the deterministic cooperative ones (coop.py)."""
import os
import random
import shutil
import sys
import tempfile
import textwrap
import traceback
from pathlib import Path

import pipeline as P
import coop
import vf


def in_world(fn, seed, max_steps=200000):
    """run fn() as main process of a cooperative world; returns (result, exception, hung)"""
    w = coop.World(P.random_chooser(seed), max_steps=max_steps)
    w.open_stores, w.nopen, w.nclose, w.nappend = [], 0, 0, 0
    w.fail_open, w.crash_at, w.crashed, w.crash_open = 0, 0, False, 0
    w.role_of = P.role_of
    w.ready_for_guidance = lambda: True
    box = {}

    def main():
        try:
            box["res"] = fn()
        except SystemExit as e:
            box["exc"] = e
            box["tb"] = traceback.format_exc()
        except Exception as e:
            box["exc"] = e
            box["tb"] = traceback.format_exc()
    hook = coop.threading.excepthook
    coop.threading.excepthook = lambda *a: None
    try:
        with vf.silent():
            w.run(main)
    finally:
        coop.threading.excepthook = hook
    in_world.tb = box.get("tb")
    in_world.world = w
    return box.get("res"), box.get("exc"), w.hung


class Project:
    """an ini-file and a processing module in a scratch folder"""

    def __init__(self, ini, module, base=None):
        self.root = Path(tempfile.mkdtemp(prefix="vf_e2e_", dir=base))
        g = self.root / "given"
        g.mkdir()
        self.modname = "proc_%d_%s" % (os.getpid(), self.root.name.replace("-", "_"))
        (g / f"{self.modname}.py").write_text(module)
        extra = f"""
[CONFIGFILES]
module__processing_cfg = {g}/{self.modname}.py
"""
        head, specs = ini
        (g / "config.ini").write_text(textwrap.dedent(head) + extra + textwrap.dedent(f"""
[PROCESS_SPECS]
path__save_path = {self.root}/save
dumpfolder = proc
finalout_name = out.h5
processing_cfg_module = processing_cfg
{specs}
"""))
        self.path = g / "config.ini"
        self.syspath = list(sys.path)

    def process(self, **kw):
        from rt1.rtprocess import RTprocess
        kw.setdefault("autocontinue", True)
        return RTprocess(self.path, **kw)

    @property
    def folder(self):
        return self.root / "save" / "proc"

    @property
    def db(self):
        return self.folder / "results" / "fit_db.h5"

    def results(self, **kw):
        from rt1.rtresults import RTresults
        return RTresults(self.folder, **kw).proc

    def close(self):
        sys.path[:] = self.syspath
        shutil.rmtree(self.root, ignore_errors=True)
