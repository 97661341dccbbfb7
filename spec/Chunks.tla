------------------------------- MODULE Chunks -------------------------------
(* Reading a table of the results database in steps of S IDs, starting at     *)
(* offset K, with reads of at most R IDs.  IDs are the positions 1..N in       *)
(* database order; the reader may read ahead of the step it is delivering.     *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS MaxN, MaxS, MaxR
VARIABLES cs, at, buf, out, pc
vars == <<cs, at, buf, out, pc>>

Ival(a, b) == [i \in 1..(b - a + 1) |-> a + i - 1]
RECURSIVE Cat(_)
Cat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Cat(Tail(ss))
Min2(a, b) == IF a < b THEN a ELSE b
\* what a reader has to deliver
Steps(n, s, k) == [j \in 1..((n - k + s - 1) \div s) |-> Ival(k + (j - 1) * s + 1, Min2(n, k + j * s))]

Cases == {c \in [n : 1..MaxN, s : 1..MaxS, k : 0..(MaxN - 1), r : 1..MaxR] : c.k < c.n}
Init == cs \in Cases /\ at = cs.k /\ buf = <<>> /\ out = <<>> /\ pc = "read"

Read(m) == /\ pc = "read" /\ at < cs.n /\ m \in 1..cs.r
           /\ buf' = buf \o Ival(at + 1, Min2(cs.n, at + m)) /\ at' = Min2(cs.n, at + m)
           /\ UNCHANGED <<cs, out, pc>>
Deliver == /\ pc = "read" /\ (Len(buf) >= cs.s \/ (at = cs.n /\ buf # <<>>))
           /\ out' = Append(out, SubSeq(buf, 1, Min2(cs.s, Len(buf))))
           /\ buf' = SubSeq(buf, cs.s + 1, Len(buf))
           /\ UNCHANGED <<cs, at, pc>>
Done == /\ pc = "read" /\ at = cs.n /\ buf = <<>> /\ pc' = "done"
        /\ PrintT(<<"BEH", ToJson([c |-> cs, out |-> out])>>)
        /\ UNCHANGED <<cs, at, buf, out>>
Next == (\E m \in 1..MaxR : Read(m)) \/ Deliver \/ Done
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

\* whatever the reader has delivered so far is a prefix of the prescribed steps
Prefix == \A j \in DOMAIN out : out[j] = Steps(cs.n, cs.s, cs.k)[j]
Complete == pc = "done" => /\ out = Steps(cs.n, cs.s, cs.k)
                           /\ Cat(out) = Ival(cs.k + 1, cs.n)
                           /\ \A j \in DOMAIN out : j < Len(out) => Len(out[j]) = cs.s
Ends == <>(pc = "done")
\* every way of reading leads to the same delivery: only the case is kept
View == <<cs, at, buf, out, pc>>
=============================================================================
