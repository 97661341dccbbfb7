---------------------------- MODULE HelpersTrace ----------------------------
(* results of the real helpers on arbitrary inputs, judged by Expect *)
EXTENDS Helpers, Json, IOUtils
R == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE i
Say(c) == PrintT(<<"FAIL", i, c>>)
Check(ok, c) == IF ok THEN TRUE ELSE Say(c)
Init == i = 1
Next == /\ i <= Len(R) /\ i' = i + 1
        /\ Check(R[i].got = Expect(R[i].k, R[i].x), R[i].k)
        /\ IF i = Len(R) THEN PrintT(<<"JUDGED", i>>) ELSE TRUE
Spec == Init /\ [][Next]_i
=============================================================================
