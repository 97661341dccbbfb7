"""Run the real processing pool under the deterministic scheduler."""
import os
import random
import shutil
import sys
import tempfile
from pathlib import Path

import coop

coop.install()
import pandas as pd                      # noqa: E402
import pandas.io.pytables as _pt         # noqa: E402

_RealStore = pd.HDFStore


class CoopStore(_RealStore):
    """the real store; additionally a scheduling point and a recorder"""

    def __init__(self, path, mode="a", *a, **k):
        t = coop.cur()
        self._coop_w = None
        if t is not None and mode != "r":
            w = t.world
            w.switch(("open", str(path)))
            others = [x for x in w.open_stores if x[0] == str(path)]
            if others:
                w.note("overlap", who=[t.name, others[0][1]])
                raise OSError(f"unable to lock file '{path}'")
            if w.crash_open and w.nopen + 1 == w.crash_open:
                w.note("crash", key="")
                w.crashed = True
                raise coop.Killed()
            w.open_stores.append((str(path), t.name))
            self._coop_w = w
            w.nopen += 1
            self._coop_fail = w.nopen == w.fail_open
            w.note("open", k=w.nopen)
        super().__init__(path, mode, *a, **k)

    def append(self, key, value, *a, **k):
        w = getattr(self, "_coop_w", None)
        if w is not None:
            w.switch(("append", key))
            w.nappend += 1
            if w.crash_at == w.nappend:
                w.note("crash", key=key)
                w.crashed = True
                raise coop.Killed()
            if self._coop_fail:
                self._coop_fail = False
                w.note("wfail", key=key)
                raise OSError("no space left on device (injected)")
        r = super().append(key, value, *a, **k)
        if w is not None:
            lev = value.index.get_level_values(0)
            w.note("commit", key=key, ids=sorted(set(int(i) for i in lev)))
        return r

    def put(self, key, value, *a, **k):
        w = getattr(self, "_coop_w", None)
        if w is not None:
            w.switch(("append", key))
            w.note("putkey", key=key)
        return super().put(key, value, *a, **k)

    def close(self):
        w = getattr(self, "_coop_w", None)
        super().close()
        if w is not None:
            self._coop_w = None
            t = coop.cur()
            w.open_stores[:] = [x for x in w.open_stores if x[1] != t.name]
            w.nclose += 1
            w.note("close", k=w.nclose)


pd.HDFStore = CoopStore
_pt.HDFStore = CoopStore

sys.path.insert(0, os.environ.get("VF_REPO", "/repo"))
import warnings                           # noqa: E402
warnings.simplefilter("ignore")
import logging                            # noqa: E402
import rt1                                # noqa: E402
rt1.log.setLevel(100)
for _h in list(rt1.log.handlers):
    rt1.log.removeHandler(_h)
logging.disable(logging.CRITICAL)
from rt1._rtprocess_writer import RT1_processor   # noqa: E402
import pl_funcs                           # noqa: E402


# ------------------------------------------------------------------- choosers
def random_chooser(seed, aux=0.03, timeout=0.15):
    rng = random.Random(seed)
    # priority-based (PCT like) with random change points
    prio = {}

    def choose(w, opts):
        real = [o for o in opts if o[0].role != "aux"]
        pool = real if real and rng.random() > aux else opts
        go = [o for o in pool if o[1] == "go"]
        if go and rng.random() > timeout:
            pool = go
        if rng.random() < 0.25:
            return rng.choice(pool)
        if rng.random() < 0.05:
            prio.clear()
        return max(pool, key=lambda o: prio.setdefault(o[0].name, rng.random()))
    return choose


def fair_pick(opts, rng):
    real = [o for o in opts if o[0].role != "aux"] or opts
    go = [o for o in real if o[1] == "go"] or real
    return min(go, key=lambda o: (o[0].nsteps, o[0].name))


class Guided:
    """follow the action labels of a behaviour of the specification"""

    def __init__(self, labels, seed=0):
        self.labels = list(labels)
        self.rng = random.Random(seed)
        self.goal = None
        self.skipped = 0
        self.met = 0

    def _task(self, w, lab):
        kind, k = lab[0], int(lab[1])
        if kind == "M":
            return w.main
        if kind == "W":
            ts = [t for t in w.tasks if t.role == "worker"]
        elif kind == "C":
            ts = [t for t in w.tasks if t.role == "combiner"]
        elif kind == "R":
            ts = [t for t in w.tasks if t.role == "writer"]
        elif kind == "T":
            ts = [t for t in w.tasks if t.role == "thread" and not t.done
                  and t.proc.role == "combiner"
                  and t.proc.name.strip()[-1:] == str(k - 1)]
            return ts[0] if ts else None
        return ts[k - 1] if len(ts) >= k else None

    def _met(self, w, t, lab, ev0):
        act = lab[2]
        new = [e for e in w.events[ev0:] if e["task"] == t.name]
        kinds = {e["ev"] for e in new}
        if t.done:
            return True
        if act == "take":
            return t.op[0] == "wait" or "start" in kinds
        if act == "go":
            return "start" in kinds or t.op[0] in ("put", "job")
        if act == "put":
            return "put" in kinds or t.op[0] == "job"
        if act == "chk":
            return t.op[0] == "get"
        if act == "get":
            return "get" in kinds
        if act in ("timeout",):
            return "timeout" in kinds
        if act == "out":
            return "put" in kinds
        if act == "write":
            return "close" in kinds
        if act == "exit":
            return False
        return t.op[0] in ("join", "pooljoin")

    def __call__(self, w, opts):
        by = {}
        for t, how in opts:
            by.setdefault(t.name, {})[how] = t
        while True:
            if self.goal is None:
                if not self.labels:
                    return fair_pick(opts, self.rng)
                lab = self.labels[0]
                if not w.ready_for_guidance():
                    return fair_pick(opts, self.rng)
                self.labels.pop(0)
                t = self._task(w, lab)
                if t is None or t.done:
                    self.skipped += 1
                    continue
                if lab[2] == "signal":
                    t.pending_signal = coop._signal.SIGTERM
                    return (t, "signal")
                self.goal = (t, lab, len(w.events), 0)
            t, lab, ev0, n = self.goal
            if n > 0 and self._met(w, t, lab, ev0):
                self.goal = None
                self.met += 1
                continue
            hows = by.get(t.name, {})
            if n > 60 or not hows:
                self.goal = None
                self.skipped += 1
                continue
            if lab[2] == "timeout" and t.op[0] == "get" and "timeout" in hows:
                how = "timeout"
            elif "go" in hows:
                how = "go"
            elif t.op[0] == "get" and lab[2] != "timeout" and n > 0:
                self.goal = None
                self.skipped += 1
                continue
            else:
                how = "timeout" if "timeout" in hows else list(hows)[0]
            self.goal = (t, lab, ev0, n + 1)
            return (t, how)


def role_of(name):
    n = name.lower()
    for r in ("combiner", "writer"):
        if r in n:
            return r
    return "proc"


class Run:
    """one run of the real pool; everything observed is in self.world.events"""

    def __init__(self, args, path, chooser, NW=1, NC=1, NR=1, chunk=2, cache=1,
                 fail_open=0, crash_at=0, crash_open=0, max_steps=40000, starmap_args=None,
                 pool_kwargs=None, use_reader=True, ID_getter=True):
        self.args, self.path = args, str(path)
        w = self.world = coop.World(chooser, max_steps=max_steps)
        w.open_stores, w.nopen, w.nclose, w.nappend = [], 0, 0, 0
        w.fail_open, w.crash_at, w.crashed = fail_open, crash_at, False
        w.crash_open = crash_open
        w.role_of = role_of
        w.ready_for_guidance = lambda: any(t.role == "worker" for t in w.tasks)
        self.cfg = dict(NW=NW, NC=NC, NR=NR, chunk=chunk, cache=cache,
                        fail_open=fail_open, crash_at=crash_at)
        self.counters = None
        self.exc = None
        self.use_reader, self.ID_getter = use_reader, ID_getter
        self.starmap_args, self.pool_kwargs = starmap_args, pool_kwargs

    def _main(self):
        c = self.cfg
        try:
            with RT1_processor.writer_pool(
                    n_worker=c["NW"], n_combiner=c["NC"], n_writer=c["NR"],
                    dst_path=self.path, write_chunk_size=c["chunk"],
                    out_cache_size=c["cache"]) as p:
                self.proc = p
                kw = {}
                if self.ID_getter:
                    kw["ID_getter"] = pl_funcs.get_ID
                if self.starmap_args is not None:
                    kw["starmap_args"] = self.starmap_args
                if self.pool_kwargs is not None:
                    kw["pool_kwargs"] = dict(self.pool_kwargs)
                self.res = p.run_starmap(
                    arg_list=self.args, process_func=pl_funcs.process,
                    reader_func=pl_funcs.reader if self.use_reader else None, **kw)
                self.world.note("pooldone")
        except SystemExit as e:
            self.exc = e
        except Exception as e:
            self.exc = e
            self.world.note("error", error=repr(e)[:200])

    def go(self):
        out = sys.stdout
        sys.stdout = coop.quiet()
        err = sys.stderr
        sys.stderr = coop.quiet()
        hook = coop.threading.excepthook
        coop.threading.excepthook = lambda *a: None
        try:
            w = self.world

            def grab(world, ev):
                p = getattr(self, "proc", None)
                if p is None:
                    return
                tot, mean = getattr(p, "p_totcnt", None), getattr(p, "p_meancnt", None)
                if tot is not None and hasattr(tot, "_v"):
                    self.counters = (int(tot._v), int(mean._v))
            w.hooks["shutdown"] = grab
            self.world.run(self._main)
        finally:
            sys.stdout, sys.stderr = out, err
            coop.threading.excepthook = hook
        return self


def read_db(path):
    """{table: {num: [rows]}} of a database file, read with plain pandas"""
    out = {}
    if not os.path.exists(path):
        return out
    with CoopStore(path, "r") as st:
        for key in st.keys():
            if key.endswith("/meta") or "/meta/" in key:
                continue
            df = st.select(key)
            d = out.setdefault(key.lstrip("/"), {})
            nums = df.index.get_level_values(0)
            for pos, num in enumerate(nums):
                row = df.iloc[pos]
                rest = df.index[pos][1:] if isinstance(df.index[pos], tuple) else ()
                d.setdefault(int(num), []).append(
                    [list(map(str, rest)), {str(c): _py(v) for c, v in row.items()}])
    return out


def _py(v):
    try:
        f = float(v)
        return int(f) if f == int(f) else f
    except (TypeError, ValueError):
        return str(v)


def expected_tables(arg, num):
    """what the database must contain for one successful input"""
    fr = pl_funcs.frames(num, arg.get("storeID", arg["ID"]), arg["n"], arg["layout"])
    out = {}

    def add(key, df):
        rows = []
        for pos in range(len(df)):
            i = df.index[pos]
            rest = i[1:] if isinstance(i, tuple) else ()
            rows.append([list(map(str, rest)), {str(c): _py(v) for c, v in df.iloc[pos].items()}])
        out[key] = rows
    for k, v in fr.items():
        if k.startswith("const__"):
            add(k[len("const__"):], v)
        elif isinstance(v, dict):
            for kk, vv in v.items():
                add(f"{k}/{kk}", vv)
        else:
            add(k, v)
    return out


def make_args(kinds, layout=0, start=1, ids=None):
    return [dict(ID=(ids[i] if ids else f"id{start + i}"), n=start + i, kind=k, layout=layout)
            for i, k in enumerate(kinds)]
