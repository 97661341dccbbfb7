----------------------------- MODULE GroupRules -----------------------------
(* Meaning of the variability rules.  An observation is a record              *)
(*   [t |-> hours, d, w, m, y |-> day / week / month / year number,            *)
(*    lab |-> <<label of parameter 1, ...>>]                                    *)
(* a rule is [k |-> kind, u |-> unit, n |-> multiple].  A dataset is a sequence  *)
(* of observations sorted by time.                                             *)
EXTENDS Integers, Sequences, FiniteSets

Set(s) == {s[i] : i \in DOMAIN s}
GMin(S) == CHOOSE a \in S : \A b \in S : a <= b
Max2(a, b) == IF a > b THEN a ELSE b
Stamps(ds) == {ds[i].t : i \in DOMAIN ds}
Rank(ds, t) == Cardinality({x \in Stamps(ds) : x < t})

\* number of the interval of length n units in which an observation lies;
\* the first interval is the one of the first observation
Interval(ds, i, u, n) ==
  LET o == ds[i] f == ds[1] Up(x) == (x + n - 1) \div n IN
  CASE u = "H" -> (o.t - 24 * f.d) \div n          \* counted from midnight of the first day
    [] u = "D" -> (o.d - f.d) \div n
    [] u = "W" -> Up(o.w - f.w)                     \* closed intervals end with a week ...
    [] u = "M" -> Up(o.m - f.m)                     \* ... month ...
    [] u = "Q" -> Up(o.m \div 3 - f.m \div 3)
    [] u = "A" -> Up(o.y - f.y)                     \* ... year
    [] u = "MS" -> (o.m - f.m) \div n               \* intervals that begin with a month

\* bins of consecutive unique time stamps, as equal as possible
NBins(ds, n) == Max2(1, Cardinality(Stamps(ds)) \div n)
BinSize(ds, n, b) == LET c == Cardinality(Stamps(ds)) g == NBins(ds, n) IN
                     (c \div g) + (IF b < c % g THEN 1 ELSE 0)
RECURSIVE BinStart(_, _, _)
BinStart(ds, n, b) == IF b = 0 THEN 0 ELSE BinStart(ds, n, b - 1) + BinSize(ds, n, b - 1)
Bin(ds, i, n) == LET r == Rank(ds, ds[i].t) IN
                 CHOOSE b \in 0..(NBins(ds, n) - 1) :
                    r >= BinStart(ds, n, b) /\ r < BinStart(ds, n, b) + BinSize(ds, n, b)

\* "num" rules only fix the bins up to where the larger ones are: see NumLaw
Same(ds, rule, p, i, j) ==
  CASE rule.k = "const" -> TRUE
    [] rule.k = "off" -> Interval(ds, i, rule.u, rule.n) = Interval(ds, j, rule.u, rule.n)
    [] rule.k = "num" -> Bin(ds, i, rule.n) = Bin(ds, j, rule.n)
    [] rule.k = "man" -> ds[i].lab[p] = ds[j].lab[p]
    [] rule.k = "index" -> ds[i].t = ds[j].t
    [] rule.k = "offman" -> /\ Interval(ds, i, rule.u, rule.n) = Interval(ds, j, rule.u, rule.n)
                            /\ ds[i].lab[p] = ds[j].lab[p]
    [] rule.k = "numman" -> /\ Bin(ds, i, rule.n) = Bin(ds, j, rule.n)
                            /\ ds[i].lab[p] = ds[j].lab[p]

\* what "bins as equal as possible" demands of any assignment g of the observations
NumLaw(ds, n, g) ==
  LET T == Stamps(ds)
      gr == {g[i] : i \in DOMAIN ds}
      size(x) == Cardinality({ds[i].t : i \in {j \in DOMAIN ds : g[j] = x}})
  IN /\ \A i, j \in DOMAIN ds : ds[i].t = ds[j].t => g[i] = g[j]
     /\ Cardinality(gr) = NBins(ds, n)
     /\ \A x, y \in gr : size(x) - size(y) \in {-1, 0, 1}
     /\ \A i, j, k \in DOMAIN ds : ds[i].t <= ds[j].t /\ ds[j].t <= ds[k].t /\ g[i] = g[k] => g[i] = g[j]

SameGroup(ds, rules, i, j) == \A p \in DOMAIN rules : Same(ds, rules[p], p, i, j)

\* group numbers in order of first appearance
FirstOf(ds, rule, p, i) == GMin({j \in DOMAIN ds : Same(ds, rule, p, i, j)})
Firsts(ds, rule, p) == {FirstOf(ds, rule, p, i) : i \in DOMAIN ds}
GroupNo(ds, rule, p, i) == Cardinality({j \in Firsts(ds, rule, p) : j <= FirstOf(ds, rule, p, i)})
NGroups(ds, rule, p) == Cardinality(Firsts(ds, rule, p))
=============================================================================
