-------------------------------- MODULE Units --------------------------------
(* Conversions between the conventions a value can be given in:                   *)
(*   <<sig0, dB>>: backscatter coefficient or intensity, decibel or linear.        *)
(* A number is described by what has been done to the linear intensity:            *)
(*   k: how often it was multiplied with 4 pi cos, log: how often 10 log10 was taken *)
(* (a product is only meaningful in linear units).                                  *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANT MaxLen
Convs == BOOLEAN \X BOOLEAN
Rep(c) == [k |-> IF c[1] THEN 1 ELSE 0, log |-> IF c[2] THEN 1 ELSE 0, bad |-> FALSE]
Lin(v) == [v EXCEPT !.log = @ - 1, !.bad = @ \/ v.log # 1]
Log(v) == [v EXCEPT !.log = @ + 1, !.bad = @ \/ v.log # 0]
Scale(v, d) == [v EXCEPT !.k = @ + d, !.bad = @ \/ v.log # 0]
\* conversion from convention f to convention c
Convert(v, f, c) ==
  IF f = c THEN v
  ELSE LET l == IF f[2] /\ (f[1] # c[1] \/ ~c[2]) THEN Lin(v) ELSE v
           s == IF f[1] = c[1] THEN l ELSE Scale(l, IF c[1] THEN 1 ELSE 0 - 1)
       IN IF c[2] /\ s.log = 0 THEN Log(s) ELSE s
VARIABLES path, val
vars == <<path, val>>
Cur == path[Len(path)]
Init == \E c \in Convs : path = <<c>> /\ val = Rep(c)
Next == /\ Len(path) < MaxLen
        /\ \E c \in Convs : path' = Append(path, c) /\ val' = Convert(val, Cur, c)
Spec == Init /\ [][Next]_vars
\* the value only depends on where the path ends: path independence, inversion, identity
Path == val = Rep(Cur)
Identity == \A c \in Convs : c = Cur => Convert(val, Cur, c) = val
Invert == \A c \in Convs : Convert(Convert(val, Cur, c), c, Cur) = val
Direct == Convert(Rep(path[1]), path[1], Cur) = val
Emit == Len(path) = MaxLen => PrintT(<<"PATH", ToJson(path)>>)
==============================================================================
