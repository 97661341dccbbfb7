"""P03 / P04: histories of spec/Store.tla run on the real pool and judged by
spec/StoreTrace.tla"""
import hashlib
import json
import os
import random
import shutil

import vf
import coop
import pipeline as P
import plrec
import pl_funcs

# names of the inputs: plain, not an identifier, keyword, digits, unicode, path like
POOLS = [["site1", "site2", "site3", "site4", "site5"],
         ["1", "2", "10", "01", "3"],
         ["class", "a-b", "x", "RT1_a", "1"],
         ["d/one.nc", "d/two.nc", "one", "d/3", "e.f"],
         ["\u00e9tat", "a b", "lambda", "Site1", "site1"]]


def stem(x):
    return str(x).split(os.sep)[-1].split(".")[0]


def content(args, db):
    """per input: list of (number, hash of all its rows, complete?)"""
    ra = db.get("reader_arg", {})
    out, used = [], set()
    for a in args:
        recs = []
        for num, rows in ra.items():
            for rest, row in rows:
                if row.get("x") == 1000 + a["n"]:
                    exp = P.expected_tables(a, num)
                    full = True
                    sig = []
                    for tab in sorted(db):
                        got = db[tab].get(num, [])
                        if tab == "reader_arg":
                            got = [g for g in got if g[1].get("x") == 1000 + a["n"]]
                        if got:
                            used.add((tab, num))
                            sig.append([tab, got])
                        if tab in exp and got != exp[tab]:
                            full = False
                        if tab not in exp and got:
                            full = False
                    if not set(exp) <= set(db):
                        full = False
                    recs.append(dict(num=int(num), full=full, sig=hashlib.sha1(
                        json.dumps(sig, sort_keys=True).encode()).hexdigest()[:12]))
        out.append(recs)
    foreign = sum(1 for tab, d in db.items() for m in d if (tab, m) not in used)
    return out, foreign


def history(job):
    """run one history of the specification on the real code"""
    seed, runs, M, pool, mode, layout, scratch = job
    rng = random.Random(seed)
    base = os.path.join(scratch, f"h{os.getpid()}_{seed}")
    res = os.path.join(base, "proc", "results")
    os.makedirs(res)
    path = os.path.join(res, "fit_db.h5")
    from rt1.processing_config import rt1_processing_config
    pc = rt1_processing_config(save_path=base, dumpfolder="proc")
    names = POOLS[pool]
    allargs = []
    for i in range(1, M + 1):
        a = dict(ID=names[i - 1], n=i, kind="ok", layout=layout)
        if mode == "stem":
            a["storeID"] = stem(names[i - 1])
        allargs.append(a)
    out = []
    for r in runs:
        bad = set(r["bad"])
        args = [dict(allargs[i - 1], kind=rng.choice(["fail", "skip", "rfail", "none"])
                     if i in bad else "ok") for i in r["list"]]
        plain = [{k: v for k, v in a.items()} for a in args]
        stop = r["stop"]
        kw = dict(NW=rng.choice([1, 2, 3]), NC=rng.choice([1, 2]), NR=rng.choice([1, 1, 2]),
                  chunk=rng.choice([1, 1, 2, 3, 10]), cache=rng.choice([1, 2, 10]))
        if stop in ("crash", "wfail", "part"):
            kw["chunk"] = rng.choice([1, 1, 2])
        if stop == "crash":
            kw["crash_open"] = rng.choice([1, 2, 2, 3])
        elif stop == "wfail":
            kw["fail_open"] = rng.choice([1, 2, 2, 3])
        elif stop == "part":
            kw["crash_at"] = rng.randint(1, 6)
        masked, err = [0], ""
        try:
            with vf.silent():
                g = dict(get_ID=pl_funcs.get_ID) if mode == "raw" else {}
                m = pc.mask_existing_HDF_IDs([dict(a) for a in plain], **g)
            masked = [a["n"] for a in m]
            nums = [a["_RT1_ID_num"] for a in m]
            if len(set(nums)) != len(nums):
                err = "mask assigns a number twice"
        except Exception as e:
            err = f"mask: {e!r}"
        ch = P.random_chooser(rng.randrange(10**9))
        run = P.Run(plain, path, ch, ID_getter=mode == "raw", **kw)
        if stop == "signal":
            at = rng.randint(1, 60)
            st = dict(n=0, sent=False)

            def ch2(w, opts, base=ch, st=st, at=at):
                if not st["sent"] and any(t.role == "worker" for t in w.tasks):
                    st["n"] += 1
                    if st["n"] >= at and w.main.op[0] in ("result", "tstart", "submit"):
                        st["sent"] = True
                        w.main.pending_signal = coop._signal.SIGTERM
                        return (w.main, "signal")
                return base(w, opts)
            run.world.chooser = ch2
        run.go()
        evs = {e["ev"] for e in run.world.events}
        happened = bool(evs & {"crash", "wfail", "signal"})
        readable = True
        try:
            db = P.read_db(path)
        except Exception as e:
            db, readable = {}, False
        after, foreign = content(allargs, db)
        started = [e["id"] for e in run.world.events if e["ev"] == "start"]
        exc = repr(run.exc) if run.exc is not None and not isinstance(run.exc, SystemExit) else ""
        out.append(dict(list=r["list"], bad=sorted(bad), stop=stop if happened else "none",
                        hung=run.world.hung or exc, started=started, masked=masked, err=err,
                        after=after, foreign=foreign, readable=readable, cfg=run.cfg))
    shutil.rmtree(base, ignore_errors=True)
    return dict(m=M, runs=out, src=dict(seed=seed, pool=pool, mode=mode, layout=layout,
                                        runs=runs))


def gen(ctx, M, maxruns, stops, num):
    st = ", ".join(f'"{s}"' for s in stops)
    out = ctx.tlc("Store", cfg_text=f"INIT Init\nNEXT Next\nCONSTANTS M = {M} MaxRuns = {maxruns} "
                  f"Stops = {{{st}}}\nINVARIANTS Emit\n", simulate=num, depth=maxruns + 1,
                  workers=1, deadlock=False)
    return vf.printed(out)


def judge(ctx, hs, part=False):
    for r in hs:
        if isinstance(r, vf.Err):
            ctx.violation("harness-exception", r.text, r.item)
    hs = [r for r in hs if r is not None and not isinstance(r, vf.Err)]
    for r in hs:
        for x in r["runs"]:
            if x["err"]:
                ctx.violation("mask-fails", x["err"], r["src"])
    n = max(1, min(4, len(hs) // 100))
    for i in range(n):
        p = hs[i::n]
        fails = ctx.validate("StoreTrace", [dict(m=r["m"], runs=r["runs"]) for r in p],
                             "SPECIFICATION Spec\n")
        for f in fails:
            r = p[f[0] - 1]
            x = r["runs"][f[2] - 1]
            key = f[1].replace(" ", "-")
            before = [y["stop"] for y in r["runs"][:f[2]]]
            if "part" in before:
                # the run died between the tables of one batch
                key = "partial-batch" if key in PARTIAL else key
            ctx.violation(key, dict(clause=f[1], run=f[2], record=x, history=before),
                          r["src"])
    ctx.trace(sum(len(r["runs"]) for r in hs))
    for r in hs:
        ctx.case([r["src"]["pool"], r["src"]["mode"],
                  [[x["list"], x["bad"], x["stop"], x["started"], x["after"]] for x in r["runs"]]])
    return hs


PARTIAL = {"a-stored-record-is-incomplete", "rows-that-belong-to-no-stored-ID",
           "run-does-not-end", "an-ID-is-stored-twice", "a-stored-record-changed",
           "an-input-that-is-not-stored-was-not-processed", "a-processed-input-is-not-stored",
           "two-IDs-share-a-number"}
