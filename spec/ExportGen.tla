----------------------------- MODULE ExportGen -----------------------------
(* random export scenarios *)
EXTENDS Naturals, Sequences, TLC, Json
CONSTANTS MaxN
VARIABLES done, s
Rnd(X) == RandomElement(IF done THEN {} ELSE X)
Kinds == {"fitdyn", "fitconst", "const", "auxiliary", "sig", "inc", "model", "column", "rarg", "scalar", "series", "override", "unknown"}
GInit == done = FALSE /\ s = <<>>
GNext == /\ ~done /\ done' = TRUE
         /\ s' = [n |-> Rnd(1..MaxN), multi |-> Rnd(BOOLEAN), req |-> {Rnd(Kinds), Rnd(Kinds), Rnd(Kinds), Rnd(Kinds), Rnd(Kinds), Rnd(Kinds)},
                  todB |-> Rnd(BOOLEAN), todeg |-> Rnd(BOOLEAN), metrics |-> Rnd(0..3), ncpu |-> Rnd(1..3),
                  sel |-> Rnd({"all", "all", "name", "one", "list"}), limit |-> Rnd({0, 0, 1, 2, 5}), again |-> Rnd({"no", "no", "same", "more"}),
                  source |-> Rnd({"db", "db", "dumps", "grown"}), index |-> Rnd(BOOLEAN), path |-> Rnd({"default", "name", "path"}), coefs |-> Rnd(BOOLEAN)]
Emit == done => PrintT(<<"BEH", ToJson(s)>>)
=============================================================================
