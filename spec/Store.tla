------------------------------- MODULE Store -------------------------------
(* Histories of processing runs over one results database: numbering of the  *)
(* IDs, gaps left by failed inputs, runs that end early, resuming.            *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

CONSTANTS M,        \* inputs 1..M
          MaxRuns,
          Stops     \* subset of {"none","signal","crash","wfail"}

Ids == 1..M
None == 100          \* "no number"
VARIABLES num, runs, hist, seen
vars == <<num, runs, hist, seen>>

Lists == UNION {{s \in [1..k -> Ids] : \A a, b \in 1..k : a # b => s[a] # s[b]} : k \in 1..M}
Stored == {i \in Ids : num[i] # None}
Used == {num[i] : i \in Stored}

\* the k-th smallest number that is not taken
RECURSIVE Free(_, _, _)
Free(k, used, from) == IF from \in used THEN Free(k, used, from + 1)
                       ELSE IF k = 1 THEN from ELSE Free(k - 1, used, from + 1)
ToDo(L) == SelectSeq(L, LAMBDA i : i \notin Stored)

Init == num = [i \in Ids |-> None] /\ runs = 0 /\ hist = <<>> /\ seen = [i \in Ids |-> {}]

Run(L, bad, stop, S) ==
  LET todo == ToDo(L)
      ok == {todo[k] : k \in 1..Len(todo)} \ bad
  IN /\ runs < MaxRuns
     /\ S \subseteq ok /\ (stop = "none" => S = ok)
     /\ num' = [i \in Ids |-> IF i \in S
                 THEN Free(CHOOSE k \in 1..Len(todo) : todo[k] = i, Used, 0) ELSE num[i]]
     /\ seen' = [i \in Ids |-> IF num'[i] = None THEN seen[i] ELSE seen[i] \cup {num'[i]}]
     /\ runs' = runs + 1
     /\ hist' = Append(hist, [list |-> L, bad |-> bad, stop |-> stop])

Next == \E L \in Lists : \E bad \in SUBSET Ids : \E stop \in Stops : \E S \in SUBSET Ids :
          Run(L, bad, stop, S)
Spec == Init /\ [][Next]_vars

Unique == \A i, j \in Stored : i # j => num[i] # num[j]
Stable == \A i \in Ids : Cardinality(seen[i]) <= 1
Kept == [][\A i \in Ids : num[i] # None => num'[i] = num[i]]_vars
\* a complete run over a list leaves nothing of it out, however the earlier runs ended
Resumed == [][\A L \in Lists : \A S \in SUBSET Ids :
                Run(L, {}, "none", S) => \A k \in 1..Len(L) : num'[L[k]] # None]_vars
View == <<num, runs, seen>>

\* generation: random histories (simulation)
Emit == runs = MaxRuns => PrintT(<<"BEH", ToJson(hist)>>)
=============================================================================
