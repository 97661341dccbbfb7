"""Interpreter for the expressions emitted by spec/ModelGen.tla."""
import math

import numpy as np

import vf


def ev(e, env):
    k = e[0]
    if k == "n":
        return e[1] / e[2]
    if k == "v":
        return math.pi if e[1] == "pi" else env[e[1]]
    if k == "f":
        return env[(e[1], e[2])] if (e[1], e[2]) in env else env[e[1]]
    if k == "+":
        return ev(e[1], env) + ev(e[2], env)
    if k == "*":
        return ev(e[1], env) * ev(e[2], env)
    if k == "/":
        return ev(e[1], env) / ev(e[2], env)
    if k == "^":
        b = ev(e[1], env)
        return b ** e[2] if e[3] == 1 and e[2] >= 0 else b ** (e[2] / e[3])
    a = ev(e[1], env)
    if k == "pos":
        return np.where(np.asarray(a) > 0, a, 0.0)
    if k == "step":
        return np.where(np.asarray(a) > 0, 1.0, 0.0)
    return dict(exp=np.exp, ln=np.log, cos=np.cos, sin=np.sin)[k](a)


def size(e):
    return 1 + sum(size(x) for x in e[1:] if isinstance(x, list))


def get(ctx, want):
    """{(kind, text, text, n, conv, conv): tree}"""
    out = ctx.tlc("ModelGen", deadlock=False, workers=1, timeout=600,
                  cfg_text="SPECIFICATION Spec\nCONSTANT Want = {%s}\n" % ", ".join('"%s"' % w for w in want))
    r = {}
    for i, t in vf.printed(out, "TREE"):
        r[(i[0], i[1], i[2], i[3], tuple(i[4]), tuple(i[5]))] = t
    return r


NO = (False, False)
CONVS = [(s, d) for s in (False, True) for d in (False, True)]
