------------------------------- MODULE Metrics -------------------------------
(* Performance metrics of two series of integers, exactly (rationals <<num, den>>;  *)
(* roots are left to the reader: squares are defined).                               *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS MaxN, Vals, EmitMod, LongN, LongVals
Abs(x) == IF x < 0 THEN 0 - x ELSE x
RECURSIVE Sum(_)
Sum(s) == IF s = <<>> THEN 0 ELSE Head(s) + Sum(Tail(s))
Map2(Op(_, _), x, y) == [i \in DOMAIN x |-> Op(x[i], y[i])]
Mul(a, b) == a * b
Dif(a, b) == a - b
Dot(x, y) == Sum(Map2(Mul, x, y))
N(x) == Len(x)
\* n^2 times the covariance (population); Var likewise
Cov(x, y) == N(x) * Dot(x, y) - Sum(x) * Sum(y)
Var(x) == Cov(x, x)
D(x, y) == Map2(Dif, x, y)
Bias(x, y) == <<Sum(x) - Sum(y), N(x)>>
Rmsd2(x, y) == <<Dot(D(x, y), D(x, y)), N(x)>>
UbRmsd2(x, y) == <<Var(D(x, y)), N(x) * N(x)>>
Mae(x, y) == <<Sum([i \in DOMAIN x |-> Abs(x[i] - y[i])]), N(x)>>
\* relative to the first series: the summands as rationals
Mape(x, y) == [i \in DOMAIN x |-> <<Abs(x[i] - y[i]), Abs(x[i])>>]
\* twice the average rank
Rank2(x) == [i \in DOMAIN x |-> 2 * Cardinality({j \in DOMAIN x : x[j] < x[i]})
                                 + Cardinality({j \in DOMAIN x : x[j] = x[i]}) + 1]
Corr(x, y) == <<Cov(x, y), Var(x), Var(y)>>              \* r = c / sqrt(vx vy)
Spearman(x, y) == Corr(Rank2(x), Rank2(y))
\* least squares y = slope x + intercept: numerators over Var(x) and N(x) Var(x)
Line(x, y) == <<Cov(x, y), Sum(y) * Var(x) - Cov(x, y) * Sum(x)>>
All(x, y) == [x |-> x, y |-> y, bias |-> Bias(x, y), rmsd2 |-> Rmsd2(x, y), ub2 |-> UbRmsd2(x, y), mae |-> Mae(x, y),
              mape |-> Mape(x, y), pearson |-> Corr(x, y), spearman |-> Spearman(x, y), line |-> Line(x, y),
              sx |-> Sum(x), sxx |-> Dot(x, x)]

VARIABLES a, b, long
vars == <<a, b, long>>
Init == /\ long = FALSE
        /\ \E n \in 1..MaxN : a \in [1..n -> Vals] /\ b \in [1..n -> Vals]
Next == FALSE /\ UNCHANGED vars
Spec == Init /\ [][Next]_vars
\* laws
Sym == /\ Rmsd2(a, b) = Rmsd2(b, a) /\ UbRmsd2(a, b) = UbRmsd2(b, a) /\ Mae(a, b) = Mae(b, a)
       /\ Bias(a, b)[1] = 0 - Bias(b, a)[1] /\ Cov(a, b) = Cov(b, a)
       /\ Spearman(a, b)[1] = Spearman(b, a)[1]
Split == \* rmsd^2 = ub_rmsd^2 + bias^2 (all over n^2)
  Rmsd2(a, b)[1] * N(a) = UbRmsd2(a, b)[1] + Bias(a, b)[1] * Bias(a, b)[1]
Cauchy == /\ Cov(a, b) * Cov(a, b) <= Var(a) * Var(b) /\ Var(a) >= 0
          /\ LET s == Spearman(a, b) IN s[1] * s[1] <= s[2] * s[3]
Zero == (Rmsd2(a, b)[1] = 0) = (a = b)
Shift == LET c == [i \in DOMAIN a |-> a[i] + 3] IN
  /\ Cov(c, b) = Cov(a, b) /\ UbRmsd2(c, b) = UbRmsd2(a, b) /\ Bias(c, b)[1] = Bias(a, b)[1] + 3 * N(a)
  /\ Rank2(c) = Rank2(a)
\* a strictly monotone map leaves the ranks unchanged
Mono == LET c == [i \in DOMAIN a |-> a[i] * a[i] * a[i] + a[i]] IN Rank2(c) = Rank2(a)
Swap(x, i, j) == [x EXCEPT ![i] = x[j], ![j] = x[i]]
OrderFree == \A i, j \in DOMAIN a : LET c == Swap(a, i, j) d == Swap(b, i, j) IN
  /\ Cov(c, d) = Cov(a, b) /\ Rmsd2(c, d) = Rmsd2(a, b) /\ Mae(c, d) = Mae(a, b) /\ Line(c, d) = Line(a, b)
  /\ Spearman(c, d) = Spearman(a, b)
\* residuals of the line sum to zero and are orthogonal to x
Normal == LET l == Line(a, b) n == N(a) v == Var(a)
              r == [i \in DOMAIN a |-> n * v * b[i] - n * l[1] * a[i] - l[2]]
          IN v # 0 => Sum(r) = 0 /\ Dot(r, a) = 0
Emit == RandomElement(1..EmitMod) = 1 => PrintT(<<"MET", ToJson(All(a, b))>>)

\* longer series
RECURSIVE Rnd(_)
Rnd(n) == IF n = 0 THEN <<>> ELSE <<RandomElement(LongVals)>> \o Rnd(n - 1)
LInit == long = TRUE /\ a = <<>> /\ b = <<>>
\* (mentioning a variable keeps TLC from choosing once and for all)
LNext == \E n \in {RandomElement(IF Len(a) < 0 THEN {} ELSE LongN)} : a' = Rnd(n) /\ b' = Rnd(n) /\ UNCHANGED long
LSpec == LInit /\ [][LNext]_vars
LEmit == a # <<>> => PrintT(<<"MET", ToJson(All(a, b))>>)
LSplit == a # <<>> => Split
Lengths == 2..14
Numbers == {0 - 40, 0 - 17, 0 - 3, 0 - 2, 0 - 1, 1, 2, 3, 5, 8, 13, 29, 40, 61, 0}
Tiny == 0 - 1..2
Small == 0 - 2..3
==============================================================================
