-------------------------------- MODULE Multi --------------------------------
(* Multi-configuration objects: every container keeps an ordered set of named      *)
(* configurations which all see the same dataset, auxiliary data, reader arguments *)
(* and ID, but have their own definition and their own result.                      *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Cont, Names, NDef, NData, L, Hist,
          Gets        \* what a configuration takes over from the container when it is added
Shared == {"ds", "aux", "ra", "id"}
None == 0
VARIABLES order,   \* order[k]: names in order of definition
          shared,  \* shared[k]: dataset, auxiliary data, reader arguments, ID
          cfg,     \* cfg[k][n]: what configuration n of container k sees and holds
          hist, done
vars == <<order, shared, cfg, hist, done>>
Blank == [ds |-> None, aux |-> None, ra |-> None, id |-> None, d |-> None, fit |-> <<>>]
Has(k, n) == \E i \in DOMAIN order[k] : order[k][i] = n
Here(k) == {order[k][i] : i \in DOMAIN order[k]}
Init == /\ order = [k \in Cont |-> <<>>]
        /\ shared = [k \in Cont |-> [ds |-> 1, aux |-> None, ra |-> None, id |-> None]]
        /\ cfg = [k \in Cont |-> [n \in Names |-> Blank]]
        /\ hist = <<>> /\ done = FALSE
\* expected content of a container, in order of definition
Content(k, o, s, c) == [shared |-> s[k], names |-> o[k], cfgs |-> [i \in DOMAIN o[k] |-> c[k][o[k][i]]]]
All(o, s, c) == [k \in Cont |-> Content(k, o, s, c)]
Do(e, o, s, c) == /\ order' = o /\ shared' = s /\ cfg' = c /\ done' = FALSE
                  /\ hist' = IF Hist THEN Append(hist, [e |-> e, after |-> All(o, s, c)]) ELSE hist
More == ~done /\ Len(hist) < L
\* the first configuration determines the ID of the container; a name that exists is redefined in its place
Add(k, n, d, i) ==
  /\ More
  /\ LET o == IF Has(k, n) THEN order ELSE [order EXCEPT ![k] = Append(@, n)]
         s == IF order[k] = <<>> THEN [shared EXCEPT ![k].id = i] ELSE shared
         own == [ds |-> 1, aux |-> None, ra |-> None, id |-> i, d |-> d, fit |-> <<>>]
         c == [cfg EXCEPT ![k][n] = [f \in DOMAIN own |-> IF f \in Gets THEN s[k][f] ELSE own[f]]]
     IN Do([op |-> "add", k |-> k, n |-> n, d |-> d, i |-> i], o, s, c)
SetShared(k, f, v) ==
  /\ More /\ (f = "id" => order[k] # <<>>) /\ (f \in {"ds", "id"} => v # None) /\ shared[k][f] # v
  /\ Do([op |-> "set", k |-> k, f |-> f, v |-> v], order, [shared EXCEPT ![k][f] = v],
        [cfg EXCEPT ![k] = [n \in Names |-> IF n \in Here(k) THEN [cfg[k][n] EXCEPT ![f] = v] ELSE cfg[k][n]]])
Define(k, n, d) ==
  /\ More /\ Has(k, n) /\ cfg[k][n].d # d
  /\ Do([op |-> "define", k |-> k, n |-> n, d |-> d], order, shared, [cfg EXCEPT ![k][n].d = d])
\* fitting a selection: the results of the selected ones only
Fit(k, sel, way) ==
  /\ More /\ sel # {} /\ sel \subseteq Here(k) /\ (way = "str" => Cardinality(sel) = 1) /\ (way \in {"all", "accessor"} => sel = Here(k))
  /\ Do([op |-> "fit", k |-> k, sel |-> SelectSeq(order[k], LAMBDA n : n \in sel), way |-> way], order, shared,
        [cfg EXCEPT ![k] = [n \in Names |-> IF n \in sel THEN [cfg[k][n] EXCEPT !.fit = <<cfg[k][n].d, cfg[k][n].ds>>]
                                            ELSE cfg[k][n]]])
Access(k, sel, way) ==
  /\ More /\ sel # {} /\ sel \subseteq Here(k) /\ (way = "str" => Cardinality(sel) = 1)
  /\ (way \in {"all", "accessor", "call", "callpos"} => sel = Here(k))
  /\ Do([op |-> "access", k |-> k, sel |-> SelectSeq(order[k], LAMBDA n : n \in sel), way |-> way], order, shared, cfg)
Finish == /\ Hist /\ ~done /\ Len(hist) = L /\ done' = TRUE /\ PrintT(<<"BEH", ToJson(hist)>>)
          /\ UNCHANGED <<order, shared, cfg, hist>>
Ways == {"all", "str", "list", "accessor", "direct"}
Next == \/ Finish
        \/ \E k \in Cont :
             \/ \E n \in Names, d \in 1..NDef, i \in 1..2 : Add(k, n, d, i)
             \/ \E f \in Shared, v \in 0..NData : SetShared(k, f, v)
             \/ \E n \in Names, d \in 1..NDef : Define(k, n, d)
             \/ \E sel \in SUBSET Here(k), w \in Ways : Fit(k, sel, w)
\* (mentioning a variable keeps TLC from choosing once and for all)
Pick(S) == {RandomElement(IF Len(hist) < 0 THEN {} ELSE S)}
SimNext ==
  \/ Finish
  \/ \E k \in Pick(Cont), n \in Pick(Names), d \in Pick(1..NDef), i \in Pick(1..4), f \in Pick(Shared), v \in Pick(0..NData),
        sel \in Pick(SUBSET Names), w \in Pick(Ways), a \in Pick({"all", "str", "list", "accessor", "call", "callpos"}), t \in 1..7 :
       CASE t = 1 -> Add(k, n, d, i)
         [] t = 2 -> SetShared(k, f, v)
         [] t = 3 -> Define(k, n, d)
         [] t = 4 -> Fit(k, sel \cap Here(k), w)
         [] t = 5 -> Fit(k, Here(k), w)
         [] t = 6 -> Access(k, IF a \in {"str", "list"} THEN sel \cap Here(k) ELSE Here(k), a)
         [] t = 7 -> SetShared(k, f, v)
Spec == Init /\ [][Next]_vars
SimSpec == Init /\ [][SimNext]_vars
SameData == \A k \in Cont : \A n \in Here(k) : \A f \in Shared : cfg[k][n][f] = shared[k][f]
Unique == \A k \in Cont : Cardinality(Here(k)) = Len(order[k])
\* a step changes the definition or result of at most the configurations it names, and nothing of other containers
Apart == [][/\ Cardinality({k \in Cont : cfg'[k] # cfg[k] \/ shared'[k] # shared[k]}) <= 1
            /\ \A k \in Cont : \A n \in Here(k) :
                 (cfg'[k][n].d # cfg[k][n].d /\ cfg'[k][n].fit = cfg[k][n].fit) =>
                    \A m \in Names \ {n} : cfg'[k][m] = cfg[k][m]]_vars
\* the order of definition is kept
Stable == [][\A k \in Cont : SubSeq(order'[k], 1, Len(order[k])) = order[k]]_vars
===============================================================================
