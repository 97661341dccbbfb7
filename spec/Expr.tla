-------------------------------- MODULE Expr --------------------------------
(* Symbolic expressions: evaluation on integers (for the polynomial fragment), *)
(* substitution and differentiation.                                           *)
(*   <<"n", a, b>>  a/b        <<"v", x>>  a variable                           *)
(*   <<"f", g, k>>  k-th derivative (along the angle "th") of a function g       *)
(*   <<"+", a, b>> <<"*", a, b>> <<"/", a, b>> <<"^", a, n, d>> (a to the n/d)    *)
(*   <<"exp", a>> <<"ln", a>> <<"cos", a>> <<"sin", a>> <<"pos", a>> (a if a > 0)  *)
(*   <<"step", a>> (1 if a > 0)                                                  *)
EXTENDS Integers, Sequences, FiniteSets

N(i) == <<"n", i, 1>>
Q(i, j) == <<"n", i, j>>
V(x) == <<"v", x>>
F(g) == <<"f", g, 0>>
PiE == <<"v", "pi">>
IsN(e, i) == e = N(i)
Add(a, b) == IF IsN(a, 0) THEN b ELSE IF IsN(b, 0) THEN a ELSE <<"+", a, b>>
Mul(a, b) == IF IsN(a, 0) \/ IsN(b, 0) THEN N(0)
             ELSE IF IsN(a, 1) THEN b ELSE IF IsN(b, 1) THEN a ELSE <<"*", a, b>>
Neg(a) == Mul(N(0 - 1), a)
Sub(a, b) == Add(a, Neg(b))
Div(a, b) == IF IsN(a, 0) THEN N(0) ELSE IF IsN(b, 1) THEN a ELSE <<"/", a, b>>
Pow(a, n, d) == IF n = 0 THEN N(1) ELSE IF n = d THEN a ELSE <<"^", a, n, d>>
Sq(a) == Pow(a, 2, 1)
Fn(g, a) == <<g, a>>
RECURSIVE Sum(_)
Sum(s) == IF s = <<>> THEN N(0) ELSE Add(Head(s), Sum(Tail(s)))
RECURSIVE Prod(_)
Prod(s) == IF s = <<>> THEN N(1) ELSE Mul(Head(s), Prod(Tail(s)))

\* derivative of e with respect to the variable x
RECURSIVE D(_, _)
D(e, x) ==
  CASE e[1] = "n" -> N(0)
    [] e[1] = "v" -> IF e[2] = x THEN N(1) ELSE N(0)
    [] e[1] = "f" -> IF x = "th" THEN <<"f", e[2], e[3] + 1>> ELSE N(0)
    [] e[1] = "+" -> Add(D(e[2], x), D(e[3], x))
    [] e[1] = "*" -> Add(Mul(D(e[2], x), e[3]), Mul(e[2], D(e[3], x)))
    [] e[1] = "/" -> Sub(Div(D(e[2], x), e[3]), Div(Mul(e[2], D(e[3], x)), Sq(e[3])))
    [] e[1] = "^" -> Mul(Q(e[3], e[4]), Mul(Pow(e[2], e[3] - e[4], e[4]), D(e[2], x)))
    [] e[1] = "exp" -> Mul(e, D(e[2], x))
    [] e[1] = "ln" -> Div(D(e[2], x), e[2])
    [] e[1] = "cos" -> Neg(Mul(Fn("sin", e[2]), D(e[2], x)))
    [] e[1] = "sin" -> Mul(Fn("cos", e[2]), D(e[2], x))
    [] e[1] = "pos" -> Mul(Fn("step", e[2]), D(e[2], x))
    [] e[1] = "step" -> N(0)

RECURSIVE DN(_, _, _)
DN(e, x, n) == IF n = 0 THEN e ELSE DN(D(e, x), x, n - 1)

\* e with the variables in the domain of s replaced
RECURSIVE Subst(_, _)
Subst(e, s) ==
  CASE e[1] = "n" -> e
    [] e[1] = "v" -> IF e[2] \in DOMAIN s THEN s[e[2]] ELSE e
    [] e[1] = "f" -> e
    [] e[1] = "+" -> Add(Subst(e[2], s), Subst(e[3], s))
    [] e[1] = "*" -> Mul(Subst(e[2], s), Subst(e[3], s))
    [] e[1] = "/" -> Div(Subst(e[2], s), Subst(e[3], s))
    [] e[1] = "^" -> Pow(Subst(e[2], s), e[3], e[4])
    [] OTHER -> Fn(e[1], Subst(e[2], s))

RECURSIVE Vars(_)
Vars(e) == CASE e[1] = "n" -> {} [] e[1] = "v" -> {e[2]} [] e[1] = "f" -> {}
             [] e[1] \in {"+", "*", "/"} -> Vars(e[2]) \cup Vars(e[3])
             [] OTHER -> Vars(e[2])

RECURSIVE MPow(_, _, _)
MPow(a, n, m) == IF n = 0 THEN 1 % m ELSE (a * MPow(a, n - 1, m)) % m
\* value on integers modulo m (polynomials with integer coefficients and powers)
RECURSIVE Ev(_, _, _)
Ev(e, env, m) ==
  CASE e[1] = "n" -> e[2] % m
    [] e[1] = "v" -> env[e[2]] % m
    [] e[1] = "+" -> (Ev(e[2], env, m) + Ev(e[3], env, m)) % m
    [] e[1] = "*" -> (Ev(e[2], env, m) * Ev(e[3], env, m)) % m
    [] e[1] = "^" -> MPow(Ev(e[2], env, m), e[3], m)
=============================================================================
