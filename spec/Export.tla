------------------------------- MODULE Export -------------------------------
(* Workers export the stored fits one after another. Whatever the order of   *)
(* the fits and their distribution over the workers, the file must hold      *)
(* exactly one value per fit, requested configuration and requested name.    *)
(* Designs that break this:                                                  *)
(*  "sharedset"  scalars are taken out of a request shared by all fits       *)
(*  "posid"      fits are numbered by each worker on its own                 *)
(*  "firstdefs"  the definitions of the first configuration are used for all *)
(*  "firstfit"   a worker keeps the static values of its first fit           *)
(*  "twice"      units are converted again for every further configuration   *)
(*  "allcfgs"    the selection of configurations is ignored                  *)
EXTENDS ExportOps, TLC
CONSTANTS N, W, Design
Cfgs == 1..2
Names == {"sig", "inc", "tot", "inter", "p", "q", "r", "a", "x", "y", "u"}
Defs == [c \in Cfgs |-> IF c = 1 THEN <<<<"p", "fitdyn">>, <<"q", "fitconst">>, <<"r", "const">>, <<"a", "auxiliary">>>>
                                 ELSE <<<<"q", "fitdyn">>, <<"p", "const">>, <<"a", "fitconst">>>>]
Cust == <<<<"x", "scalar">>, <<"y", "series">>>>
Cols == <<"sig", "inc", "a">>
Rargs == <<"r">>
K(c, n) == Kind(Defs[c], Cust, Cols, Rargs, <<"tot", "surf", "vol">>, n)
VARIABLES req, sel, todB, todeg, left, shared, count, first, out
vars == <<req, sel, todB, todeg, left, shared, count, first, out>>
Cell(num, c, n, owner, kind, times) ==
  [num |-> num, cfg |-> c, name |-> n, fit |-> owner, kind |-> kind, table |-> Table(kind), conv |-> times]
Times(c, n, kind) == IF Converted(kind, n, FALSE, todB, todeg) THEN 1 ELSE 0
Expected(i) == {Cell(i, c, n, i, K(c, n), Times(c, n, K(c, n))) :
                 <<c, n>> \in {z \in sel \X req : Table(K(z[1], z[2])) # "none"}}
Init == /\ req \in {r \in SUBSET Names : Cardinality(r) <= 3} /\ sel \in (SUBSET Cfgs) \ {{}}
        /\ todB \in BOOLEAN /\ todeg \in BOOLEAN
        /\ left = 1..N /\ out = {}
        /\ shared = [w \in 1..W |-> req] /\ count = [w \in 1..W |-> 0] /\ first = [w \in 1..W |-> 0]
Export(w, i) ==
  LET cfgs == IF Design = "allcfgs" THEN Cfgs ELSE sel
      names == IF Design = "sharedset" THEN shared[w] ELSE req
      kd(c, n) == IF Design = "firstdefs" THEN K(1, n) ELSE K(c, n)
      num == IF Design = "posid" THEN count[w] + 1 ELSE i
      own(k) == IF Design = "firstfit" /\ first[w] # 0 /\ Table(k) = "static" THEN first[w] ELSE i
      tm(c, n) == IF Design = "twice" THEN Times(c, n, kd(c, n)) * c ELSE Times(c, n, kd(c, n))
  IN /\ out' = out \cup {Cell(num, c, n, own(kd(c, n)), kd(c, n), tm(c, n)) :
                          <<c, n>> \in {z \in cfgs \X names : Table(kd(z[1], z[2])) # "none"}}
     /\ shared' = [shared EXCEPT ![w] = {n \in @ : K(1, n) # "scalar"}]
     /\ count' = [count EXCEPT ![w] = @ + 1]
     /\ first' = [first EXCEPT ![w] = IF @ = 0 THEN i ELSE @]
     /\ left' = left \ {i}
     /\ UNCHANGED <<req, sel, todB, todeg>>
Next == \E w \in 1..W, i \in left : Export(w, i)
\* nothing that does not belong there at any time, and everything in the end
Sound == out \subseteq UNION {Expected(i) : i \in 1..N}
Complete == left = {} => out = UNION {Expected(i) : i \in 1..N}
One == \A x, y \in out : (x.num = y.num /\ x.cfg = y.cfg /\ x.name = y.name) => x = y
=============================================================================
