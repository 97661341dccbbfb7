import random
import shutil
import warnings

import numpy as np
import pandas as pd

import vf

LEVEL = "model_checking"
warnings.simplefilter("ignore")
NAMES = [lambda i: f"id_{i}", lambda i: f"{i}", lambda i: f"a{i:03d}", lambda i: f"x.{17 * i % 101}"]


def build(path, n, rng):
    """a results database with n IDs; returns its tables and what is stored"""
    nm = rng.choice(NAMES)
    ids = [nm(i) for i in range(n)]
    rng.shuffle(ids)
    raw = list(ids)
    ids = [i if i.isidentifier() else "RT1_" + i for i in ids]
    nums = list(range(n))
    mode = rng.randrange(4)
    if mode == 1:
        rng.shuffle(nums)
    elif mode == 2:
        nums = sorted(rng.sample(range(n + 5), n))
    elif mode == 3:
        nums = [v + 3 for v in nums]
    tabs = {}
    full = [1] * n
    tabs["reader_arg"] = full
    tabs["init_dict"] = full
    tabs["dataset"] = [rng.choice([0, 1, 2, 3]) if rng.random() < .5 else 2 for _ in range(n)]
    tabs["cfg_a/res_df"] = [rng.choice([0, 1, 2]) for _ in range(n)]
    tabs["cfg_a/static"] = [rng.choice([0, 1, 1]) for _ in range(n)]
    frames = {}
    with pd.HDFStore(path, "w") as st:
        for key, cnt in tabs.items():
            lvl = "/res" in key or key == "dataset"
            parts, where = [], []
            for p in range(n):
                if key == "reader_arg":
                    df = pd.DataFrame({"ID": [raw[p]], "gpi": [10 * p]}, index=[nums[p]])
                elif lvl:
                    m = pd.MultiIndex.from_product(
                        [[nums[p]], pd.date_range("2020", periods=cnt[p])], names=["ID", "date"])
                    df = pd.DataFrame(dict(a=np.arange(cnt[p]) + 100. * p, b=p), index=m)
                else:
                    df = pd.DataFrame({"u": [f"v{p}"] * cnt[p], "w": [p / 7] * cnt[p]},
                                      index=[nums[p]] * cnt[p])
                if len(df):
                    parts.append(df)
                    where += [(p + 1, j + 1) for j in range(len(df))]
            # written in batches of random size, like a processing run does
            i = 0
            while i < len(parts):
                k = rng.randint(1, 4)
                st.append(key, pd.concat(parts[i:i + k]), format="t", index=False,
                          data_columns=["ID"] if key == "reader_arg" else [],
                          min_itemsize={"ID": 12} if key == "reader_arg" else None if lvl else 12)
                i += k
            if parts:
                frames[key] = (pd.concat(parts), where)
    if rng.random() < .4:
        # an index speeds up reading and changes nothing
        from rt1._rtprocess_writer import RT1_processor
        kw = dict(kind=rng.choice(["full", "medium", "light"]), optlevel=rng.choice([6, 9]))
        if rng.random() < .6:
            kw["idx_levels"] = rng.choice(["all", ["ID"], ["ID", "date"], ["date"], ["index"]])
        if rng.random() < .3:
            kw["keys"] = rng.sample(sorted(frames), rng.randint(1, len(frames)))
        RT1_processor.create_index(path, **kw)
    return ids, nums, frames, tabs


def decode(df, key, ids, nums, set_ID, frame):
    """rows of a returned frame -> (position, row number of the ID); whether values agree"""
    full, where = frame
    lab = df.index.get_level_values(0)
    pos, cnt, same = [], {}, True
    seen = {}
    for r in range(len(df)):
        x = lab[r]
        p = (ids.index(x) if x in ids else -1) if set_ID else (nums.index(x) if x in nums else -1)
        p += 1
        # the content decides which stored row it is
        row = df.iloc[r]
        if key == "reader_arg":
            q = (int(row["gpi"]) // 10 + 1, 1)
            same &= bool(set_ID or "RT1_" + row["ID"] == ids[q[0] - 1] or row["ID"] == ids[q[0] - 1])
        elif "u" in df.columns:
            q = (int(str(row["u"])[1:]) + 1, 1)
            same &= row["w"] == (q[0] - 1) / 7
        elif "a" in df.columns:
            q = (int(row["b"]) + 1, int(row["a"] - 100 * row["b"]) + 1)
            same &= df.index[r][1] == pd.Timestamp("2020") + pd.Timedelta(days=q[1] - 1)
        pos.append([q[0] if q[0] == p else 0, q[1]])
    want = full.iloc[:0]
    cols = [c for c in full.columns if not (set_ID and key == "reader_arg" and c == "ID")]
    if list(df.columns) != cols and not (set_ID and key == "reader_arg"):
        same = False
    if df.index.nlevels != full.index.nlevels:
        same = False
    if df.index.nlevels == 2 and list(df.index.names) != list(full.index.names):
        same = False
    if len(df) and any(df[c].dtype != full[c].dtype for c in cols if c in df):
        same = False
    return pos, bool(same)


def work(job):
    """one database, many reads; returns trace records"""
    from rt1.rtresults import HDFaccessor
    seed, n, cases, scratch = job
    rng = random.Random(seed)
    from rt1._rtprocess_writer import RT1_processor
    path = f"{scratch}/db_{seed}.h5"
    import logging
    logging.disable(logging.CRITICAL)
    recs, bad = [], []
    with vf.silent():
        ids, nums, frames, tabs = build(path, n, rng)
        for set_ID in (False, True):
            acc = HDFaccessor(path, set_ID=set_ID)
            for what, s, k, r in cases:
                key = rng.choice(sorted(frames))
                obj = acc.datasets
                for part in key.split("/"):
                    obj = getattr(obj, part)
                kw = {} if r is None else dict(read_chunksize=r)
                desc = dict(n=n, s=s, k=k, r=r or 0, what=what, key=key, set_ID=set_ID, seed=seed)
                cols = None
                try:
                    if what in ("iter", "first") and rng.random() < .2:
                        # reading some columns is reading all of them and selecting those
                        cols = rng.sample(list(frames[key][0].columns), 1)
                    if what == "iter":
                        got = list(obj.get_nids_iter(s, k or None, **kw))
                        if cols:
                            part = list(obj.get_nids_iter(s, k or None, columns=cols, **kw))
                    elif what == "first":
                        got = [obj.get_nids(s, start=k or None, **kw)]
                        if cols:
                            part = [obj.get_nids(s, start=k or None, columns=cols, **kw)]
                    elif what == "data":
                        s, k = n, 0
                        desc.update(s=n, k=0)
                        got = [RT1_processor.get_data(path, key.split("/")[-1],
                                                      key.split("/")[0] if "/" in key else None)]
                    elif what == "id":
                        s = 1
                        desc["s"] = 1
                        got = [obj.get_id(ids[k] if rng.random() < .5 else nums[k])]
                    elif what == "select":
                        s, k = n, 0
                        desc.update(s=n, k=0)
                        got = [obj.select()]
                    elif what == "names":
                        # a list of IDs: their rows, in database order if they are given so
                        s = min(s, n - k)
                        desc["s"] = s
                        some = [ids[j] if rng.random() < .5 else nums[j] for j in range(k, k + s)]
                        got = list(obj.get_nids_iter(some))
                    steps, same = [], True
                    for df in got:
                        p, sm = decode(df, key, ids, nums, set_ID and what != "data", frames[key])
                        steps.append(p)
                        same &= sm
                    if cols and not (set_ID and key == "reader_arg"):
                        same &= len(part) == len(got) and all(a.equals(b[cols]) for a, b in zip(part, got))
                    recs.append(dict(desc, rows=tabs[key], steps=steps, same=same,
                                     what="iter" if what == "iter" else "first"))
                except Exception as e:
                    import traceback
                    bad.append((desc, "".join(traceback.format_exception(type(e), e, e.__traceback__))[-900:]))
            acc.close()
    import os
    os.unlink(path)
    return recs, bad


def run(ctx):
    N = ctx.pick(5, 6)
    out = ctx.tlc("Chunks", workers=8, deadlock=False, cfg_text="SPECIFICATION Spec\n"
                  f"CONSTANTS MaxN = {N} MaxS = {N + 1} MaxR = {ctx.pick(3, 4)}\n"
                  "INVARIANTS Prefix Complete\nPROPERTY Ends\n", timeout=800)
    small = {}
    for b in vf.printed(out):
        c = b["c"]
        small[(c["n"], c["s"], c["k"], c["r"])] = b["out"]
    rng = random.Random(ctx.seed)
    jobs = []
    for n in range(1, N + 1):
        cs = [("iter", s, k, r) for (m, s, k, r) in sorted(small) if m == n]
        for rep in range(ctx.pick(1, 3)):
            x = list(cs)
            for k in range(n):
                x += [("id", 1, k, None)]
                for s in range(1, n + 2):
                    x += [("first", s, k, rng.choice([None, 1, 2, 3])), ("iter", s, k, None)]
            x += [("select", n, 0, None), ("data", n, 0, None)]
            for k in range(n):
                x += [("names", rng.randint(1, n), k, None)]
            rng.shuffle(x)
            h = max(1, len(x) // 2)
            jobs.append((rng.randrange(10**9), n, x[:h], str(ctx.scratch)))
            jobs.append((rng.randrange(10**9), n, x[h:], str(ctx.scratch)))
    for _ in range(ctx.pick(16, 160)):
        n = rng.choice([11, 12, 15, 20, 23, 33, 40])
        x = []
        for _ in range(14):
            k = rng.choice([0, 0, rng.randrange(n)])
            s = rng.choice([1, 2, 3, 7, 10, 11, 15, n - 1, n, n + 3])
            x.append((rng.choice(["iter", "iter", "iter", "first", "id", "names", "select", "data"]), s, k,
                      rng.choice([None, None, 1, 3, 4, 10, 13])))
        jobs.append((rng.randrange(10**9), n, x, str(ctx.scratch)))
    recs = []
    for j, r in zip(jobs, vf.pmap(work, jobs, timeout=200)):
        if isinstance(r, vf.Err):
            ctx.violation("database", r.text, j)
            continue
        recs += r[0]
        for d, t in r[1]:
            ctx.violation(f"raises-{d['what']}", f"{d}: {t}", d)
    for x in recs:
        ctx.trace()
        ctx.case({k: v for k, v in x.items() if k != "steps"})
    for f in ctx.validate("ChunksTrace", recs, "SPECIFICATION Spec\n", timeout=800):
        x = recs[f[0] - 1]
        ctx.violation(f[1], f"{x}", x)
    ctx.rule = ("one case = one read (iteration / first IDs / single ID / selection / list of IDs / whole table) of "
                "one table; all (n, step, start, read size) up to the bound plus random larger ones; "
                "distinct by parameters, rows per ID and table")
    ctx.sample(recs[:3])
