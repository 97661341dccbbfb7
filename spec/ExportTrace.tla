---------------------------- MODULE ExportTrace ----------------------------
(* exported files of the real code judged by the operators of ExportOps      *)
(* record: cfgs: sequence of all configurations (names), defs: their         *)
(* definitions, sel: indices of the requested ones; cust, cols, rargs; req:  *)
(* names; dB, todB, todeg; want: fits to be exported (indices); found: fits  *)
(* for which an ID was found in the file; tables: configurations found;      *)
(* cells: sequence of [c, f, name, where: set of tables, cand: sequence of   *)
(* <<fit, cfg, kind, converted>> with that value]; extra: names found        *)
(* although not requested; metrics: names; mcells: [c, f, name, where, cand: *)
(* sequence of <<fit, cfg, metric>>]; rarg: sequence of <<fit, owner>>       *)
EXTENDS ExportOps, Integers, TLC, Json, IOUtils
R == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE n
Say(c) == PrintT(<<"FAIL", n, c>>)
Check(ok, c) == IF ok THEN TRUE ELSE Say(c)
Range(s) == {s[k] : k \in DOMAIN s}
K(x, c, nm) == Kind(x.defs[c], x.cust, x.cols, x.rargs, x.comps, nm)
Conv(x, k, nm) == IF Converted(k, nm, x.dB, x.todB, x.todeg) THEN 1 ELSE 0
Cands(q, p(_)) == \E k \in DOMAIN q.cand : p(q.cand[k])
Good(x) == {k \in DOMAIN x.cells : Range(x.cells[k].where) = {Table(K(x, x.cells[k].c, x.cells[k].name))} \ {"none"}}
Init == n = 1
Next == /\ n <= Len(R) /\ n' = n + 1
        /\ LET x == R[n] IN
           /\ Check(Range(x.found) = Range(x.want), "the exported fits are not the stored ones")
           /\ Check({<<x.cells[k].c, x.cells[k].f, x.cells[k].name>> : k \in DOMAIN x.cells} =
                      {<<c, f, nm>> : c \in Range(x.sel), f \in Range(x.want), nm \in Range(x.req)}, "not every value was looked up")
           /\ Check(Range(x.tables) \subseteq Range(x.sel), "a configuration that was not requested is exported")
           /\ Check(\A c \in Range(x.sel) : c \in Range(x.tables) \/ ((~\E nm \in Range(x.req) : Table(K(x, c, nm)) # "none") /\ x.metrics = <<>>),
                    "a requested configuration is missing")
           /\ Check(\A k \in DOMAIN x.cells : Range(x.cells[k].where) # {} \/ Table(K(x, x.cells[k].c, x.cells[k].name)) = "none",
                    "a requested value is missing")
           /\ Check(\A k \in DOMAIN x.cells : Range(x.cells[k].where) = {} \/ k \in Good(x), "a value is in the wrong table")
           /\ Check(x.extra = <<>>, "something that was not requested is exported")
           /\ Check(\A k \in Good(x) : LET q == x.cells[k] kd == K(x, q.c, q.name) IN
                      q.where = <<>> \/ Cands(q, LAMBDA z : z[1] = q.f /\ z[2] = q.c /\ z[3] = kd /\ z[4] = Conv(x, kd, q.name))
                                     \/ Cands(q, LAMBDA z : z[1] = q.f /\ z[2] = q.c /\ z[3] = kd)
                                     \/ Cands(q, LAMBDA z : z[1] = q.f), "a value is not that of the fit")
           /\ Check(\A k \in Good(x) : LET q == x.cells[k] kd == K(x, q.c, q.name) IN
                      q.where = <<>> \/ Cands(q, LAMBDA z : z[1] = q.f /\ z[2] = q.c /\ z[3] = kd)
                                     \/ ~Cands(q, LAMBDA z : z[1] = q.f), "a value is not that of the configuration")
           /\ Check(\A k \in Good(x) : LET q == x.cells[k] kd == K(x, q.c, q.name) IN
                      q.where = <<>> \/ Cands(q, LAMBDA z : z[1] = q.f /\ z[2] = q.c /\ z[3] = kd /\ z[4] = Conv(x, kd, q.name))
                                     \/ ~Cands(q, LAMBDA z : z[1] = q.f /\ z[2] = q.c /\ z[3] = kd), "a value has the wrong unit")
           /\ Check(\A k \in DOMAIN x.mcells : x.mcells[k].where = "metrics", "a requested metric is missing")
           /\ Check(\A k \in DOMAIN x.mcells : LET q == x.mcells[k] IN
                      q.where # "metrics" \/ Cands(q, LAMBDA z : z[1] = q.f /\ z[2] = q.c /\ z[3] = q.name), "a metric has a wrong value")
           /\ Check(\A k \in DOMAIN x.rarg : x.rarg[k][1] = x.rarg[k][2], "the reader arguments are not those of the fit")
        /\ IF n = Len(R) THEN PrintT(<<"JUDGED", n>>) ELSE TRUE
=============================================================================
