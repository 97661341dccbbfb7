"""recorded run of the pool -> record judged by spec/PipelineTrace.tla"""
import json
import re

import pipeline as P
import pl_funcs


def tables_of(args, db, const_arg="reader_arg"):
    """per input: copies of its expected tables, exactness; plus foreign rows"""
    out, used = [], set()
    ra = db.get(const_arg, {})
    nums = {}
    for num, rows in ra.items():
        for rest, row in rows:
            nums.setdefault(row.get("x"), []).append(num)
    for a in args:
        mine = nums.get(1000 + a["n"], [])
        if a["kind"] != "ok":
            out.append(dict(min=0, max=len(mine), exact=1))
            used.update((const_arg, m) for m in mine)
            continue
        exp = P.expected_tables(a, mine[0] if mine else 0)
        cnt, exact = [], 1
        for tab, rows in exp.items():
            if tab == const_arg:
                got = []
                for m in mine:
                    got += [r for r in db[tab][m] if r[1].get("x") == 1000 + a["n"]]
                    used.add((tab, m))
            else:
                # rows are found by content: values identify the input
                got = []
                for m in sorted(set(mine)):
                    g = db.get(tab, {}).get(m, [])
                    used.add((tab, m))
                    got += g
                if not mine:
                    for m, g in db.get(tab, {}).items():
                        if g[:1] and g[0][1:] == rows[0][1:]:
                            got += g
                            used.add((tab, m))
            if not got:
                cnt.append(0)
            elif got == rows:
                cnt.append(1)
            elif len(got) % len(rows) == 0 and len(got) > len(rows):
                cnt.append(len(got) // len(rows))
            else:
                cnt.append(1)
                exact = 0
            if len(set(mine)) != len(mine) or len(mine) > 1:
                cnt.append(len(mine))
        for tab in db:      # tables this input must not appear in
            if tab not in exp and mine and mine[0] in db[tab] and (tab, mine[0]) not in used:
                exact = 0
                used.add((tab, mine[0]))
        out.append(dict(min=min(cnt), max=max(cnt), exact=exact))
    foreign = sum(1 for tab, d in db.items() for m in d if (tab, m) not in used)
    return out, foreign


def widx(name):
    m = re.findall(r"\d+", name)
    return int(m[-1]) if m else 0


def record(run, args, db, fault="none"):
    w = run.world
    role = {t.name: t.role for t in w.tasks}
    proc = {t.name: t.proc.name for t in w.tasks}
    prole = {t.name: t.proc.role for t in w.tasks}
    writers = sorted({n for n, r in role.items() if r == "writer"})
    wn = {n: i + 1 for i, n in enumerate(writers)}
    # the queue workers fill, and the queue the writers read
    qname = {e["q"] for e in w.events if e["ev"] == "put" and role.get(e["task"]) == "worker"}
    oname = {e["q"] for e in w.events if e["ev"] == "put" and prole.get(e["task"]) == "combiner"}
    ev = []
    for e in w.events:
        k, t = e["ev"], e["task"]
        if k == "start":
            ev.append(dict(e="start", w=widx(t), i=e["id"]))
        elif k in ("put", "get") and e["q"] in qname and e["q"] not in oname:
            ev.append(dict(e="q" + k))
        elif k in ("put", "get") and e["q"] in oname:
            ev.append(dict(e="o" + k, w=wn.get(t, 0)))
        elif k == "getcall" and t in wn:
            ev.append(dict(e="wchk", w=wn[t]))
        elif k == "timeout" and t in wn:
            ev.append(dict(e="wtimeout", w=wn[t]))
        elif k in ("open", "close", "wfail") and t in wn:
            ev.append(dict(e=k, w=wn[t]))
        elif k == "overlap":
            ev.append(dict(e="overlap"))
        elif k in ("signal", "crash", "pooldone"):
            ev.append(dict(e=k))
        elif k == "exit" and e["role"] == "combiner":
            ev.append(dict(e="cexit"))
        elif k == "exit" and e["role"] == "writer":
            ev.append(dict(e="wexit"))
    copies, foreign = tables_of(args, db)
    tot, mean = run.counters if run.counters else (-1, -1)
    c = run.cfg
    return dict(n=len(args), nw=max(c["NW"], 1), nc=c["NC"], nr=max(1, len(writers)),
                chunk=c["chunk"], cache=c["cache"],
                kind=[a["kind"] for a in args], fault=fault, hung=w.hung or "",
                error=repr(run.exc)[:120] if run.exc is not None else "",
                ev=ev, copies=copies, foreign=foreign, tot=tot, mean=mean)
