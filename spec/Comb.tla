--------------------------------- MODULE Comb ---------------------------------
(* Linear combinations of scattering functions and their Legendre expansions.     *)
(* A part has a weight, a class of scattering angle and a number of coefficients; *)
(* its n-th coefficient is Coef(kind, n).  The value of an expansion is recorded  *)
(* as its weight on every polynomial <<angle class, degree>>.                     *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, Randomization
CONSTANTS MaxParts, Kinds, Classes, MaxN, Weights, EmitMod, Sampled
Coef(k, n) == (k * k + 3) * (n + 2) + n * n * k       \* arbitrary, different for all kinds and degrees
RECURSIVE SumSeq(_)
SumSeq(s) == IF s = <<>> THEN 0 ELSE Head(s) + SumSeq(Tail(s))
SeqsUpTo(S, m) == UNION {[1..k -> S] : k \in 1..m}
Part == [k : Kinds, a : Classes, n : 1..MaxN, w : Weights]
VARIABLES parts
Init == parts \in SeqsUpTo(Part, MaxParts) \cup RandomSubset(Sampled, [1..3 -> Part])
Next == FALSE /\ UNCHANGED parts
Spec == Init /\ [][Next]_parts
Max(S) == CHOOSE x \in S : \A y \in S : y <= x
\* number of coefficients: the largest declared one of the parts that share the angle
Ncoefs(p, i) == Max({p[j].n : j \in {x \in 1..Len(p) : p[x].a = p[i].a}})
Basis == Classes \X (0..MaxN - 1)
\* definition: weighted sum of the expansions of the parts
Def(p) == [b \in Basis |-> SumSeq([i \in 1..Len(p) |->
             IF p[i].a = b[1] /\ b[2] < Ncoefs(p, i) THEN p[i].w * Coef(p[i].k, b[2]) ELSE 0])]
\* construction: combine the coefficients of equal angles first, expand every group once
Grouped(p) == [b \in Basis |->
    LET g == {i \in 1..Len(p) : p[i].a = b[1]}
    IN IF g = {} THEN 0
       ELSE IF b[2] < Max({p[i].n : i \in g})
            THEN SumSeq([i \in 1..Len(p) |-> IF i \in g THEN p[i].w * Coef(p[i].k, b[2]) ELSE 0]) ELSE 0]
Same == Def(parts) = Grouped(parts)
Perms(n) == {f \in [1..n -> 1..n] : \A i, j \in 1..n : i # j => f[i] # f[j]}
OrderFree == \A f \in Perms(Len(parts)) : Def([i \in 1..Len(parts) |-> parts[f[i]]]) = Def(parts)
\* a part taken apart: linear in the weights
Split == \A i \in 1..Len(parts) : LET q == Append([parts EXCEPT ![i].w = @ - 1], [parts[i] EXCEPT !.w = 1])
                                  IN Def(q) = Def(parts)
\* a single part is expanded with exactly its own coefficients
Single == Len(parts) = 1 => \A b \in Basis : Def(parts)[b] =
            IF b[1] = parts[1].a /\ b[2] < parts[1].n THEN parts[1].w * Coef(parts[1].k, b[2]) ELSE 0
Emit == RandomElement(1..EmitMod) = 1 => PrintT(<<"COMB", ToJson(parts)>>)
=============================================================================
