--------------------------- MODULE IsolationGen ---------------------------
EXTENDS IsolationOps, TLC, Json
CONSTANTS N, Rounds
AllKinds == {"plain", "aux", "auxnone", "auxlist", "exists"} \union NoFit
VARIABLES kind, base, go
Rnd(X) == RandomElement(IF go < 0 THEN {} ELSE X)
GInit == go = 0 /\ kind = <<>> /\ base = FALSE
GNext ==
  /\ go = 0 /\ go' = 1
  /\ kind' = TLCEval([r \in 1..Rounds |-> [i \in 1..N |->
                 IF Rnd(1..2) = 1 THEN Rnd({"plain", "aux"}) ELSE Rnd(AllKinds)]])
  /\ base' = (Rnd(1..4) = 1)
Emit == go = 1 => PrintT(<<"BEH", ToJson([kind |-> kind, base |-> base])>>)
===========================================================================
