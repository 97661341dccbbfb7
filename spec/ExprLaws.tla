------------------------------ MODULE ExprLaws ------------------------------
(* The calculus of Expr, checked exhaustively on the polynomial fragment:       *)
(* expressions are built on a stack, in every state the laws hold for the top. *)
EXTENDS Expr, TLC
CONSTANT MaxSize
VARIABLES stack, size
vars == <<stack, size>>
Leaves == {V("x"), V("y"), N(2), N(0 - 1)}
Init == stack = <<>> /\ size = 0
Top == stack[Len(stack)]
Pop2(e) == Append(SubSeq(stack, 1, Len(stack) - 2), e)
Push == size < MaxSize /\ \E l \in Leaves : stack' = Append(stack, l) /\ size' = size + 1
Bin == Len(stack) >= 2 /\ \E o \in {"+", "*"} :
          LET a == stack[Len(stack) - 1] b == Top IN
          stack' = Pop2(IF o = "+" THEN Add(a, b) ELSE Mul(a, b)) /\ UNCHANGED size
Power == Len(stack) >= 1 /\ size < MaxSize /\ stack' = [stack EXCEPT ![Len(stack)] = Pow(Top, 3, 1)] /\ size' = size + 1
Next == Push \/ Bin \/ Power
Spec == Init /\ [][Next]_vars
Env(a, b) == [x |-> a, y |-> b]
Pts == {0 - 2, 0, 1, 3}
M == 10007
Has == stack # <<>>
\* p(x + h) = p(x) + h p'(x)  modulo h^2
Taylor == Has => \A a, b \in Pts, h \in {2, 5, 101} : LET m == h * h IN
   /\ Ev(Top, Env(a + h, b), m) = (Ev(Top, Env(a, b), m) + h * Ev(D(Top, "x"), Env(a, b), m)) % m
   /\ Ev(Top, Env(a, b + h), m) = (Ev(Top, Env(a, b), m) + h * Ev(D(Top, "y"), Env(a, b), m)) % m
Mixed == Has => \A a, b \in Pts : Ev(D(D(Top, "x"), "y"), Env(a, b), M) = Ev(D(D(Top, "y"), "x"), Env(a, b), M)
\* substitution is evaluation, and the chain rule holds
S == [x |-> Add(Sq(V("y")), N(2))]
Chain == Has => \A b \in Pts :
   LET a == b * b + 2 IN
   /\ Ev(Subst(Top, S), Env(0, b), M) = Ev(Top, Env(a, b), M)
   /\ Ev(D(Subst(Top, S), "y"), Env(0, b), M) = (Ev(D(Top, "y"), Env(a, b), M) + Ev(D(Top, "x"), Env(a, b), M) * 2 * b) % M
Free == Has => (~("x" \in Vars(Top)) => \A a, b \in Pts : Ev(D(Top, "x"), Env(a, b), M) = 0)
=============================================================================
