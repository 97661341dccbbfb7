----------------------------- MODULE ChunksTrace -----------------------------
(* what the real reader delivered, judged by the prescription of Chunks:      *)
(* steps[j] = the rows of step j as pairs <<position of the ID in the          *)
(* database (0: no stored ID), number of the row within this ID>>              *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
R == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE i
Say(c) == PrintT(<<"FAIL", i, c>>)
Check(ok, c) == IF ok THEN TRUE ELSE Say(c)
Ival(a, b) == [k \in 1..(b - a + 1) |-> a + k - 1]
Min2(a, b) == IF a < b THEN a ELSE b
RECURSIVE Cat(_)
Cat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Cat(Tail(ss))
\* the rows of IDs a..b, each ID with its rows in order
Rows(x, a, b) == Cat([k \in 1..(b - a + 1) |-> [j \in 1..x.rows[a + k - 1] |-> <<a + k - 1, j>>]])
NSteps(x) == (x.n - x.k + x.s - 1) \div x.s
Step(x, j) == Rows(x, x.k + (j - 1) * x.s + 1, Min2(x.n, x.k + j * x.s))
Want(x) == IF x.what = "iter" THEN [j \in 1..NSteps(x) |-> Step(x, j)]
           ELSE <<Step(x, 1)>>                       \* the first IDs, or a single one
Seq2(s) == [k \in DOMAIN s |-> <<s[k][1], s[k][2]>>]
Init == i = 1
Next == /\ i <= Len(R) /\ i' = i + 1
        /\ LET x == R[i] got == [j \in DOMAIN x.steps |-> Seq2(x.steps[j])] w == Want(x) IN
           /\ Check(\A j \in DOMAIN got : \A q \in DOMAIN got[j] : got[j][q][1] > 0, "rows or labels of no stored ID")
           /\ Check(\A a, b \in DOMAIN Cat(got) : a # b => Cat(got)[a] # Cat(got)[b], "a row is returned twice")
           /\ Check(\A j \in DOMAIN w : \A q \in DOMAIN w[j] : \E p \in DOMAIN Cat(got) : Cat(got)[p] = w[j][q],
                    "a row is missing")
           /\ Check(got = w, "the steps do not hold the prescribed rows in database order")
           /\ Check(x.same, "values or index of a row differ from what is stored")
        /\ IF i = Len(R) THEN PrintT(<<"JUDGED", i>>) ELSE TRUE
Spec == Init /\ [][Next]_i
=============================================================================
