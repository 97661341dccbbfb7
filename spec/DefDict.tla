------------------------------ MODULE DefDict ------------------------------
(* The container of parameter definitions: an ordered map from names to six  *)
(* properties <<fitQ, val, freq, minval, maxval, interpQ>> (coded as small    *)
(* numbers), changed through all supported notations.                         *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Names, Vals, MaxOps, Full
VARIABLES st, hist, done
vars == <<st, hist, done>>

N == 6
No == 0 - 1                       \* "not given"
Nul == 0 - 2                      \* the value None
Default == <<1, 0, Nul, 0, 1, 0>>  \* True, 0.5, None, 0., 1., False
Pos(s, n) == {i \in DOMAIN s : s[i].n = n}
Has(s, n) == Pos(s, n) # {}
Merge(base, g) == [i \in 1..N |-> IF g[i] = No THEN base[i] ELSE g[i]]
\* adding a name that exists redefines it in its place
Define(s, n, p) == IF Has(s, n) THEN [i \in DOMAIN s |-> IF s[i].n = n THEN [n |-> n, p |-> p] ELSE s[i]]
                   ELSE Append(s, [n |-> n, p |-> p])
Drop(s, n) == SelectSeq(s, LAMBDA e : e.n # n)

Given == [1..N -> Vals \cup {No}]
Prefix(g) == \A i, j \in 1..N : i < j /\ g[j] # No => g[i] # No
\* the list notation carries minval and maxval together
ListLike(g) == Prefix(g) /\ (g[4] = No <=> g[5] = No)
\* built directly (filtering all of Given for every state would be slow)
Fill(s) == [i \in 1..N |-> IF i <= Len(s) THEN s[i] ELSE No]
SeqsOf(lens) == {Fill(s) : s \in UNION {[1..k -> Vals] : k \in lens}}
Prefixes == SeqsOf(0..N)
Listlikes == SeqsOf({0, 1, 2, 3, 5, 6})
Literals == SeqsOf({1, 2, 3, 5, 6})
ASSUME \A g \in Prefixes : Prefix(g)
ASSUME \A g \in Listlikes : ListLike(g)
Some == IF Full THEN Given ELSE {g \in Given : Cardinality({i \in 1..N : g[i] # No}) \in {0, 1, 2, 6}}

\* when histories are generated one random element stands for the whole set
Pick(S) == IF Full THEN {RandomElement(S), RandomElement(S), RandomElement(S)} ELSE S

Do(o, s) == st' = s /\ hist' = Append(hist, [o |-> o, after |-> s]) /\ done' = FALSE

Call == \E n \in Names, g \in Pick(Some) :
          Do([op |-> "call", n |-> n, g |-> g], Define(st, n, Merge(Default, g)))
AttrDict == \E n \in Names, g \in Pick(Some) :
          Do([op |-> "attrdict", n |-> n, g |-> g], Define(st, n, Merge(Default, g)))
Positional == \E n \in Names, g \in Pick(Prefixes) :
          Do([op |-> "pos", n |-> n, g |-> g], Define(st, n, Merge(Default, g)))
AttrList == \E n \in Names, g \in Pick(Listlikes) :
          Do([op |-> "attrlist", n |-> n, g |-> g], Define(st, n, Merge(Default, g)))
\* a new container from literals; a list sets what it does not name to None
FromDict == \E n, m \in Names, g \in Pick(Literals), h \in Pick(Some) :
          /\ n # m
          /\ Do([op |-> "literal", n |-> n, g |-> g, m |-> m, h |-> h],
                <<[n |-> n, p |-> Merge([i \in 1..N |-> Nul], g)], [n |-> m, p |-> Merge(Default, h)]>>)
Edit == \E i \in DOMAIN st, k \in Pick(1..N), v \in Pick(Vals), how \in Pick({"attr", "item", "index", "var"}) :
          /\ Do([op |-> "edit", n |-> st[i].n, k |-> k, v |-> v, how |-> how],
                [st EXCEPT ![i].p[k] = v])
EditBoth == \E i \in DOMAIN st, v \in Pick(Vals), w \in Pick(Vals) :
          Do([op |-> "editminmax", n |-> st[i].n, v |-> v, w |-> w],
             [st EXCEPT ![i].p[4] = v, ![i].p[5] = w])
Remove == \E i \in DOMAIN st : Do([op |-> "remove", n |-> st[i].n], Drop(st, st[i].n))
Copy == \E how \in {"list", "dict"} : Do([op |-> "copy", how |-> how], st)

\* the end of a generated history: printed once
Finish == /\ Full /\ Len(hist) = MaxOps /\ ~done /\ done' = TRUE /\ UNCHANGED <<st, hist>>
          /\ PrintT(<<"BEH", ToJson(hist)>>)

Init == st = <<>> /\ hist = <<>> /\ done = FALSE
Next == \/ Finish
        \/ /\ Len(hist) < MaxOps
           /\ Call \/ AttrDict \/ Positional \/ AttrList \/ FromDict \/ Edit \/ EditBoth \/ Remove \/ Copy
Spec == Init /\ [][Next]_vars

Unique == \A i, j \in DOMAIN st : st[i].n = st[j].n => i = j
\* names that survive a step keep their relative order and newcomers go to the end
Order == [][\A i, j \in DOMAIN st : (i < j /\ Has(st', st[i].n) /\ Has(st', st[j].n)
              /\ hist'[Len(hist')].o.op # "literal") =>
              \A a \in Pos(st', st[i].n), b \in Pos(st', st[j].n) : a < b]_vars
\* an operation changes no parameter but the one it names
Frame == [][LET o == hist'[Len(hist')].o IN
              o.op \notin {"literal", "copy"} =>
                \A i \in DOMAIN st : st[i].n # o.n => \E j \in DOMAIN st' : st'[j] = st[i]]_vars
View == <<st, Len(hist)>>
=============================================================================
