import random
from datetime import timedelta

import numpy as np
import pandas as pd

import vf

LEVEL = "model_checking"
G = None


def mod():
    global G
    if G is None:
        from rt1 import general_functions as G_
        G = G_
    return G


def lst(x):
    return [v.item() if isinstance(v, np.generic) else v for v in x]


BASE = pd.Timestamp("2015-03-29 00:30:00")


def real(k, x, style):
    """run the real helper on input x and bring the result to the form of the spec

    style (a small int) selects how the input is presented (list, array, generator, strings ...)
    """
    G = mod()
    if k in ("group", "groupsorted"):
        s, pos = x["s"], list(range(1, len(x["s"]) + 1))
        srt = k == "groupsorted"
        if style % 3 == 0:
            r = G.groupby_unsorted(pos, key=lambda i: s[i - 1], sort=srt)
        elif style % 3 == 1:
            r = G.groupby_unsorted(zip(s, pos), key=lambda t: t[0], get=lambda t: t[1], sort=srt)
        else:
            r = G.groupby_unsorted(enumerate(np.array(s, dtype=int)), sort=srt,
                                   key=lambda t: int(t[1]), get=lambda t: t[0] + 1)
        if style % 5 == 4:      # plain use: copies of the unique values
            q = G.groupby_unsorted(s, sort=srt)
            if [(a, b) for a, b in q.items()] != [(a, [a] * len(b)) for a, b in r.items()]:
                return "plain grouping differs"
        return [[a, list(b)] for a, b in r.items()]
    if k == "chunk":
        a = list(range(1, x["n"] + 1))
        a = [a, np.array(a, dtype=int), pd.Index(a, dtype=int), tuple(a)][style % 4]
        return [lst(c) for c in G.chunkit(a, x["c"])]
    if k == "split":
        a = list(range(1, x["n"] + 1))
        a = [a, np.array(a, dtype=int), iter(a)][style % 3]
        return [lst(c) for c in G.split_into(a, [None if z < 0 else z for z in x["sizes"]])]
    if k in ("pad", "padmask"):
        # row r, column c carries the value 100 r + c
        rows = [[100 * r + c for c in range(1, n + 1)] for r, n in enumerate(x["lens"], 1)]
        if style % 3 == 1:
            rows = [np.array(r) for r in rows]
        elif style % 3 == 2:
            rows = {i: r for i, r in enumerate(rows)}.values()
        dim = x["dim"] or None
        out = G.rectangularize(rows, dim=dim)
        val, mask = G.rectangularize(rows, return_mask=True, dim=dim)
        ma = G.rectangularize(rows, return_masked=True, dim=dim)
        if not (np.array_equal(out, val) and np.array_equal(ma.data, val)
                and np.array_equal(np.ma.getmaskarray(ma), mask)):
            return "the variants disagree"
        fl = G.rectangularize([[v + .25 for v in r] for r in rows], dim=dim)
        if not np.array_equal(fl, out + .25):
            return "float rows differ"
        if k == "padmask":
            return [[int(v) for v in r] for r in mask]
        return [[int(v) - 100 * r for v in row] for r, row in enumerate(out, 1)]
    if k == "missing":
        s = list(x["s"])
        random.Random(style).shuffle(s)
        if style % 3 == 1:
            s = np.array(s, dtype=int)
        elif style % 3 == 2 and s:
            s = s + [s[0]]
        if style % 2:
            return lst(G.find_missing(s, x["n"]))
        it = iter(G.find_missing(s))
        return lst(next(it) for _ in range(x["n"]))
    if k == "windows":
        a = list(range(1, x["n"] + 1))
        a = [a, iter(a), np.array(a)][style % 3]
        return [lst(t) for t in (G.pairwise(a, x["c"]) if x["c"] != 2 or style % 2
                                 else G.pairwise(a))]
    if k == "scale":
        s = np.array(x["s"], dtype=float)
        w = s.max() - s.min()
        if style % 3 == 1:
            s = np.insert(s, 1, np.nan)
        kw = {}
        if style % 3 == 2:
            kw["domainfuncs"] = (lambda v: v.min(), lambda v: v.max())
        r = np.asarray(G.scale(s, out_range=(x["lo"], x["hi"]), **kw)) * w
        if style % 3 == 1:
            if not np.isnan(r[1]):
                return "nan vanished"
            r = np.delete(r, 1)
        q = np.round(r)
        return [int(v) for v in q] if np.all(abs(r - q) < 1e-9) else list(map(float, r))
    if k == "hms":
        return lst(G.dt_to_hms(timedelta(seconds=x["n"]) + timedelta(microseconds=style % 2)))
    if k == "mean":
        t = pd.DatetimeIndex([BASE + pd.Timedelta(seconds=v) for v in x["s"]])
        t = [t, list(t.to_numpy()), t.to_numpy(), list(t), list(t.to_pydatetime())][style % 5]
        m = pd.Timestamp(G.meandatetime(t))
        n = (m - BASE).total_seconds() * len(x["s"])
        return [round(n)] if abs(n - round(n)) < 1e-3 else [n]
    raise ValueError(k)


def one(job):
    k, x, style = job
    try:
        with vf.silent():
            return real(k, x, style)
    except vf.Timeout:
        raise
    except BaseException as e:
        return f"{type(e).__name__}: {e}"


def big(rng):
    k = rng.choice(["group", "groupsorted", "chunk", "split", "pad", "padmask", "missing",
                    "windows", "scale", "hms", "mean"])
    n = rng.randint(5, 40)
    if k in ("group", "groupsorted"):
        x = dict(s=[rng.randint(-3, rng.choice([0, 3, 30])) for _ in range(n)])
    elif k == "chunk":
        x = dict(n=n * rng.randint(1, 5), c=rng.randint(1, 25))
    elif k == "split":
        x = dict(n=n, sizes=[rng.choice([0, 1, 2, 3, 5, 8, 8, -1 if rng.random() < .3 else 4])
                             for _ in range(rng.randint(0, 9))])
    elif k in ("pad", "padmask"):
        lens = [rng.randint(1, 9) for _ in range(rng.randint(1, 12))]
        x = dict(lens=lens, dim=rng.choice([0, 0, max(lens), max(lens) + 2]))
    elif k == "missing":
        x = dict(s=sorted({rng.randint(0, rng.choice([8, 60])) for _ in range(rng.randint(0, 30))}),
                 n=rng.randint(0, 30))
    elif k == "windows":
        x = dict(n=n, c=rng.randint(1, 6))
    elif k == "scale":
        s = [rng.randint(-200, 200) for _ in range(n)]
        s[0] = s[1] + 7
        lo = rng.randint(-9, 9)
        x = dict(s=s, lo=lo, hi=lo + rng.choice([-7, 1, 2, 12]))
    elif k == "hms":
        x = dict(n=rng.randint(-10**6, 10**8))
    else:
        x = dict(s=[rng.randint(0, 10**6) for _ in range(rng.randint(1, 12))])
    return k, x, rng.randrange(60)


def progress(style):
    """the text of the progress bar: at most one block too much, the counts, the end"""
    G = mod()
    rng = random.Random(style)
    mx = rng.randint(1, 60)
    p = rng.randint(0, mx + 2)
    p2 = rng.choice([None, rng.randint(0, p)])
    with vf.silent():
        m = G.update_progress(p, mx, title="some title", finalmsg="the end", progress2=p2)
    if p >= mx:
        return None if "the end" in m else f"final message missing: {m!r} {p}/{mx}"
    n = m.count("#")
    if n + m.count("-") != 20 or abs(n - 20 * p / mx) > .5 + 1e-9 or "some title" not in m:
        return f"bar {m!r} for {p}/{mx}"
    toks = [int("".join(ch for ch in t if ch.isdigit())) for t in m.replace("#", "").split()
            if any(ch.isdigit() for ch in t)]
    if toks != [v for v in (p, p2, mx) if v is not None]:
        return f"counts {m!r} for {p} {p2} {mx}"


def interp(style):
    """interpolation to time stamps keeps values at their own stamps, is linear in between"""
    G = mod()
    rng = random.Random(style)
    n = rng.randint(2, 8)
    days = sorted(rng.sample(range(40), n))
    vals = [rng.randint(-9, 9) for _ in days]
    idx = pd.DatetimeIndex([BASE + pd.Timedelta(days=2 * d) for d in days])
    q = [rng.randint(2 * days[0], 2 * days[-1]) for _ in range(6)] + [2 * d for d in days]
    qi = pd.DatetimeIndex([BASE + pd.Timedelta(days=d) for d in q])
    want = np.interp(q, [2 * d for d in days], vals)
    with vf.silent():
        kind = style % 4
        if kind == 0:
            r = G.interpolate_to_index(pd.Series(vals, idx, dtype=float), qi)
        elif kind == 1:
            r = G.interpolate_to_index(pd.DataFrame(dict(a=vals, b=[2. * v for v in vals]), idx), qi)
            if not (list(r.columns) == ["a", "b"] and np.allclose(r["b"], 2 * want, atol=1e-6)):
                return f"columns {r}"
            r = r["a"]
        elif kind == 2:
            r = G.interpolate_to_index(np.array(vals, dtype=float), qi, data_index=idx)
        else:
            r = G.interpolate_to_index(list(map(float, vals)), qi, data_index=idx)
    if not (r.index.equals(qi) and np.allclose(r.values, want, atol=1e-6)):
        return f"{days} {vals} -> {r.values} instead of {want}"


def run(ctx):
    # laws on every small input; every case with its expected result
    out = ctx.tlc("HelpersGen", workers=1, deadlock=False, cfg_text="SPECIFICATION Spec\n"
                  f"CONSTANT B = {ctx.pick(4, 5)}\nINVARIANTS Laws Emit\n")
    cases = vf.printed(out)
    rng = random.Random(ctx.seed)
    jobs = [(c["k"], c["x"], st) for c in cases
            for st in (rng.sample(range(60), ctx.pick(2, 6)))]
    exp = {}
    for c in cases:
        exp[repr((c["k"], c["x"]))] = c["e"]
    n = 16
    parts = [jobs[i::n] for i in range(n)]
    res = vf.pmap(lambda p: [one(j) for j in p], parts, timeout=300)
    for p, r in zip(parts, res):
        if isinstance(r, vf.Err):
            ctx.violation("helper-crash", r.text)
            continue
        for (k, x, st), got in zip(p, r):
            ctx.trace()
            ctx.case([k, x])
            want = exp[repr((k, x))]
            if got != want:
                ctx.violation(k, f"{k}{x} (style {st}): {got}, expected {want}", [k, x, st])
    # larger random inputs, judged by the same operators
    jobs = [big(rng) for _ in range(ctx.pick(1500, 30000))]
    recs, keep = [], []
    for j in jobs:
        g = one(j)
        if isinstance(g, str):
            ctx.violation(j[0], f"{j}: {g}", j)
            continue
        if any(isinstance(v, float) for v in np.ravel(np.array(g, dtype=object))):
            ctx.violation(j[0], f"{j}: {g} is not what is expected", j)
            continue
        recs.append(dict(k=j[0], x=j[1], got=g))
        keep.append(j)
    for f in ctx.validate("HelpersTrace", recs, "SPECIFICATION Spec\n"):
        j = keep[f[0] - 1]
        ctx.violation(f[1], f"{j}: got {recs[f[0] - 1]['got']}", j)
    for j in keep:
        ctx.trace()
        ctx.case(j[:2])
    for st in range(ctx.pick(400, 4000)):
        for name, fn in (("progress", progress), ("interpolate", interp)):
            try:
                e = fn(ctx.seed * 100000 + st)
            except Exception as ex:
                e = f"{type(ex).__name__}: {ex}"
            ctx.case([name, st])
            if e:
                ctx.violation(name, e, [name, ctx.seed * 100000 + st])
    ctx.rule = ("one case = one helper call; every input up to the bound of HelpersGen in several "
                "presentations (list, array, generator, repeated), plus random larger inputs; "
                "distinct by helper and input")
    ctx.sample([cases[0], cases[len(cases) // 2], keep[0]])
