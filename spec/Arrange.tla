------------------------------- MODULE Arrange --------------------------------
(* Ways to hand the same observations to an elementwise function: an ordering of  *)
(* the observations, cut into consecutive batches, each as a row, a column, or    *)
(* a matrix; the results put back into the original order do not depend on it.    *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
CONSTANT N
Perms == {p \in [1..N -> 0..N - 1] : \A i, j \in 1..N : i # j => p[i] # p[j]}
Cuts == SUBSET (1..N - 1)
RECURSIVE Batches(_, _, _)
Batches(p, cut, i) == \* sequence of sequences
  IF i > N THEN <<>>
  ELSE LET e == CHOOSE k \in i..N : (k \in cut \/ k = N) /\ \A j \in i..k - 1 : j \notin cut
       IN <<[m \in 1..e - i + 1 |-> p[i + m - 1]]>> \o Batches(p, cut, e + 1)
VARIABLES perm, cut
Init == perm \in Perms /\ cut \in Cuts
Next == FALSE /\ UNCHANGED <<perm, cut>>
Spec == Init /\ [][Next]_<<perm, cut>>
B == Batches(perm, cut, 1)
\* an abstract elementwise evaluation: the value of an observation is a function of the observation
f(x) == x * x + 1
Eval(b) == [m \in 1..Len(b) |-> f(b[m])]
RECURSIVE Flat(_)
Flat(s) == IF s = <<>> THEN <<>> ELSE Head(s) \o Flat(Tail(s))
RECURSIVE MapEval(_)
MapEval(s) == IF s = <<>> THEN <<>> ELSE <<Eval(Head(s))>> \o MapEval(Tail(s))
Back(vals) == [o \in 0..N - 1 |-> vals[CHOOSE i \in 1..N : Flat(B)[i] = o]]
Independent == /\ Len(Flat(B)) = N
               /\ Back(Flat(MapEval(B))) = [o \in 0..N - 1 |-> f(o)]
               /\ PrintT(<<"ARR", ToJson(B)>>)
=============================================================================
