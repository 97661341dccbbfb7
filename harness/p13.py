import copy
import random

import vf

LEVEL = "model_checking"

# code -> value, per property
VAL = [
    {0: False, 1: True, 2: False, 3: True},
    {0: 0.5, 1: 0.123, 2: "auxiliary", 3: 3},
    {0: "index", 1: "2M", 2: "2M + manual", 3: 7},
    {0: 0.0, 1: 1.0, 2: 0.01, 3: -5},
    {0: 0.0, 1: 1.0, 2: 0.7, 3: 25},
    {0: False, 1: True, 2: True, 3: False},
]
PROPS = ["fitQ", "val", "freq", "minval", "maxval", "interpQ"]
NAMES = [["omega", "tau", "t_v"], ["a", "b_2", "NormBRDF"], ["bsf", "t", "tau2"],
         ["val", "name", "x"], ["omega", "fitQ", "freq"]]


def v(k, c):
    return None if c == -2 else VAL[k][c]


def same(a, b):
    if type(a) is not type(b):
        return False
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, dict):
        return list(a) == list(b) and all(same(a[k], b[k]) for k in a)
    return a == b


def aslist(p):
    return [p[0], p[1], p[2], ([p[3]], [p[4]]), p[5]]


def views(dd, want):
    """compare every view of the container with the expected [(name, six values)]"""
    names = [n for n, _ in want]
    if list(dd) != names or list(dd.keys()) != names:
        return f"names {list(dd)} / {list(dd.keys())}, expected {names}"
    L = {n: aslist(p) for n, p in want}
    D = {n: dict(zip(PROPS, p)) for n, p in want}
    if not same(dd.to_dict(), L):
        return f"list form {dd.to_dict()}, expected {L}"
    if not same(dict(dd.items()), L):
        return f"items {dict(dd.items())}, expected {L}"
    if not same(dd.to_dict("list"), L):
        return "to_dict('list')"
    if not same(dd.to_dict("dict"), D):
        return f"dict form {dd.to_dict('dict')}, expected {D}"
    for n, p in want:
        a, b, c = dd[n], getattr(dd.var, n), dd.var[n]
        for i, k in enumerate(PROPS):
            for x in (a, b, c):
                if not (same(getattr(x, k), p[i]) and same(x[k], p[i])):
                    return f"{n}.{k} = {getattr(x, k)!r} / {x[k]!r}, expected {p[i]!r}"
        if not all(same(a[i], aslist(p)[i]) for i in range(5)):
            return f"{n}[i] = {[a[i] for i in range(5)]}, expected {aslist(p)}"
        repr(dd)
    return None


def replay(job):
    from rt1._containers import _RT1_defdict
    hist, names, seed = job
    rng = random.Random(seed)
    dd = _RT1_defdict()
    frozen = []
    want = []
    for step, h in enumerate(hist):
        o = h["o"]
        op = o["op"]
        n = names[o["n"] - 1] if "n" in o else None
        try:
            if op in ("call", "attrdict", "pos", "attrlist"):
                g = o["g"]
                kw = {PROPS[i]: v(i, c) for i, c in enumerate(g) if c != -1}
                if op == "call":
                    ks = list(kw)
                    rng.shuffle(ks)
                    if rng.random() < .3 and set(ks[:1]) == {"fitQ"}:
                        dd.add_variable(n, kw["fitQ"], **{k: kw[k] for k in ks if k != "fitQ"})
                    else:
                        dd.add_variable(name=n, **{k: kw[k] for k in ks})
                elif op == "attrdict":
                    setattr(dd, n, kw)
                elif op == "pos":
                    dd.add_variable(n, *kw.values())
                else:
                    lst = list(kw.values())
                    if len(lst) > 3:
                        mm = ([lst[3]], [lst[4]])
                        lst[3:5] = [mm if rng.random() < .6 else list(mm)]
                    setattr(dd, n, lst)
            elif op == "literal":
                kw = [v(i, c) for i, c in enumerate(o["g"]) if c != -1]
                if len(kw) > 3:
                    kw[3:5] = [([kw[3]], [kw[4]])]
                m = names[o["m"] - 1]
                lit = {n: kw, m: {PROPS[i]: v(i, c) for i, c in enumerate(o["h"]) if c != -1}}
                before = copy.deepcopy(lit)
                frozen.append((dd, want))
                dd = _RT1_defdict.from_dict(lit)
                if not same(lit, before):
                    return step, "from_dict changed its argument"
            elif op == "edit":
                k, val = o["k"] - 1, v(o["k"] - 1, o["v"])
                how = o["how"]
                if how == "attr":
                    setattr(dd[n], PROPS[k], val)
                elif how == "item":
                    dd[n][PROPS[k]] = val
                elif how == "var":
                    setattr(getattr(dd.var, n), PROPS[k], val)
                elif k in (0, 1, 2, 5):
                    dd[n][{0: 0, 1: 1, 2: 2, 5: 4}[k]] = val
                else:
                    a = dd[n]
                    dd[n][3] = ([val], [a.maxval]) if k == 3 else ([a.minval], [val])
            elif op == "editminmax":
                dd[n][3] = ([v(3, o["v"])], [v(4, o["w"])])
            elif op == "remove":
                dd.remove_variable(n)
            elif op == "copy":
                frozen.append((dd, want))
                d = dd.to_dict(o["how"])
                d0 = copy.deepcopy(d)
                dd = _RT1_defdict.from_dict(d)
                if not same(d, d0):
                    return step, "from_dict changed its argument"
                # tampering with the dictionary must not reach either container
                for x in d.values():
                    if isinstance(x, list):
                        x[3][0][0] = "tampered"
                        x[0] = "tampered"
                    else:
                        x["minval"] = "tampered"
            want = [(names[e["n"] - 1], [v(i, c) for i, c in enumerate(e["p"])]) for e in h["after"]]
            e = views(dd, want)
            if e:
                return step, e
            for old, w in frozen:
                e = views(old, w)
                if e:
                    return step, "an independent container changed: " + e
        except vf.Timeout:
            raise
        except Exception as ex:
            return step, f"{type(ex).__name__}: {ex}"
    return None


def mutable(seed):
    """mutable values (arrays) are shared by no container made from the other's forms"""
    import numpy as np
    from rt1._containers import _RT1_defdict
    for form in ("list", "dict"):
        a = _RT1_defdict()
        a.add_variable("x", True, [1., 2.], "index", 0., 1.)
        b = _RT1_defdict.from_dict(a.to_dict(form))
        a["x"].val[0] = 99.
        if b["x"].val != [1., 2.]:
            return f"{form}: value shared between the containers: {b['x'].val}"
        c = dict(x=[True, 0.5, None, ([np.array([1.])], [2.])])
        b = _RT1_defdict.from_dict(c)
        c["x"][3][0][0][0] = 5.
        if b["x"].minval[0] != 1.:
            return "minval shared with the literal"


def run(ctx):
    base = ("CONSTANTS Names = {%s} Vals = {%s} MaxOps = %d Full = %s\n")
    ctx.tlc("DefDict", deadlock=False, cfg_text="SPECIFICATION Spec\n"
            + base % ("1, 2", "0", 3, "FALSE") + "INVARIANT Unique\nPROPERTIES Order Frame\nVIEW View\n")
    rng = random.Random(ctx.seed)
    hs = []
    for names, vals, mx, n in (("1, 2", "0, 1, 2, 3", 4, 800), ("1, 2, 3", "0, 2, 3", 7, 1500),
                               ("1, 2, 3", "1, 2", 12, 600)):
        out = ctx.tlc("DefDict", deadlock=False, workers=4, simulate=ctx.pick(n, n * 20), depth=mx + 3,
                      cfg_text="SPECIFICATION Spec\n" + base % (names, vals, mx, "TRUE"), timeout=1500)
        hs += vf.printed(out)
    jobs = [(h, rng.choice(NAMES), rng.randrange(10**6)) for h in hs]
    for job, r in zip(jobs, vf.pmap(replay, jobs, timeout=60)):
        ctx.trace()
        ctx.case([h["o"] for h in job[0]])
        if isinstance(r, vf.Err):
            ctx.violation("error", r.text, job)
        elif r:
            ctx.violation("view-" + job[0][r[0]]["o"]["op"], f"after step {r[0]} {job[0][r[0]]['o']}: {r[1]}", job)
    try:
        e = mutable(ctx.seed)
    except Exception as ex:
        e = f"{type(ex).__name__}: {ex}"
    if e:
        ctx.violation("shared", e)
    ctx.rule = ("one case = one TLC-generated operation history replayed on the real container, all "
                "views compared with the specification after every operation; distinct by history")
    ctx.extra["operations"] = sum(len(h) for h in hs)
    ctx.sample([h["o"] for h in hs[0]])
