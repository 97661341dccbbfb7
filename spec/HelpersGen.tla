----------------------------- MODULE HelpersGen -----------------------------
(* every small input of every helper: checks the laws and emits the case with *)
(* its expected result *)
EXTENDS Helpers, Json
CONSTANTS B   \* bound on lengths
Seqs(S, lo, hi) == UNION {[1..n -> S] : n \in lo..hi}
Cases(k) ==
  CASE k \in {"group", "groupsorted"} -> [s : Seqs(1..3, 0, B)]
    [] k = "chunk" -> [n : 0..(2 * B + 1), c : 1..(B + 2)]
    [] k = "split" -> [n : 0..B, sizes : Seqs({-1, 0, 1, 2, 3}, 0, 3)]
    [] k \in {"pad", "padmask"} -> {x \in [lens : Seqs(1..3, 1, B - 1), dim : {0, 3, 4}] :
                                      x.dim = 0 \/ \A r \in DOMAIN x.lens : x.lens[r] <= x.dim}
    [] k = "missing" -> [s : {SetToSeq(S) : S \in SUBSET (0..(B + 1))}, n : 0..B]
    [] k = "windows" -> [n : 0..(B + 2), c : 1..4]
    [] k = "scale" -> {x \in [s : Seqs({-3, 0, 1, 5}, 2, B - 1), lo : {-2, 0, 3}, hi : {1, 4, -5}] :
                          Cardinality(Set(x.s)) > 1 /\ x.lo # x.hi}
    [] k = "hms" -> [n : {d * 86400 + h * 3600 + m * 60 + s :
                          d \in {-2, -1, 0, 1, 40}, h \in {0, 1, 23}, m \in {0, 1, 59}, s \in {0, 1, 59}}]
    [] k = "mean" -> [s : Seqs({0, 1, 86399, 86400, 2678400}, 1, B - 1)]
Kinds == {"group", "groupsorted", "chunk", "split", "pad", "padmask", "missing", "windows",
          "scale", "hms", "mean"}
VARIABLES kind, x
Init == kind \in Kinds /\ x \in Cases(kind)
Next == UNCHANGED <<kind, x>>
Spec == Init /\ [][Next]_<<kind, x>>
Laws == Law(kind, x)
Emit == PrintT(<<"BEH", ToJson([k |-> kind, x |-> x, e |-> Expect(kind, x)])>>)
=============================================================================
