------------------------------ MODULE ModelExpr ------------------------------
(* The scattering model as expressions: zeroth order surface and first order    *)
(* volume contribution (theory chapter of the documentation), phase functions,  *)
(* BRDFs, unit conventions, and the derivatives that follow from them.           *)
EXTENDS Expr
\* geometry: variables t0, tex, p0, pex; in monostatic geometry tex = t0 = th, pex = p0 + pi
Cos(x) == Fn("cos", x)
Sin(x) == Fn("sin", x)
Exp(x) == Fn("exp", x)
Ln(x) == Fn("ln", x)
\* generalised scattering angle with the coefficients a0, a1, a2 (variables named by the prefix)
Ang(a) == Sum(<<Prod(<<V(a[1]), Cos(V("t0")), Cos(V("tex"))>>),
                Prod(<<V(a[2]), Sin(V("t0")), Sin(V("tex")), Cos(V("p0")), Cos(V("pex"))>>),
                Prod(<<V(a[3]), Sin(V("t0")), Sin(V("tex")), Sin(V("p0")), Sin(V("pex"))>>)>>)
Mono == [t0 |-> V("th"), tex |-> V("th"), pex |-> Add(V("p0"), PiE)]
AV == <<"av1", "av2", "av3">>
AS == <<"as1", "as2", "as3">>
HG(t, x) == Div(Sub(N(1), Sq(t)), Pow(Sum(<<N(1), Sq(t), Prod(<<N(0 - 2), t, x>>)>>), 3, 2))

VolKinds == {"Rayleigh", "HenyeyGreenstein", "HGRayleigh"}
SrfKinds == {"Isotropic", "CosineLobe", "HenyeyGreenstein", "HG_nadirnorm"}
\* as functions of the scattering angle (its cosine x)
Px(kind, t, x) ==
  CASE kind = "Rayleigh" -> Mul(Div(N(3), Mul(N(16), PiE)), Add(N(1), Sq(x)))
    [] kind = "HenyeyGreenstein" -> Div(HG(t, x), Mul(N(4), PiE))
    [] kind = "HGRayleigh" -> Prod(<<Div(N(3), Mul(N(8), PiE)), Div(N(1), Add(N(2), Sq(t))), Add(N(1), Sq(x)), HG(t, x)>>)
\* hemispherical reflectance at nadir of the Henyey-Greenstein function
NadirNorm(t, a) ==
  LET r == Sum(<<N(1), Sq(t), Prod(<<N(0 - 2), a, t>>)>>)
      num == Sub(Sub(N(1), Mul(t, Sub(a, t))), Pow(Mul(r, Add(N(1), Sq(t))), 1, 2))
  IN Prod(<<N(2), Sub(N(1), Sq(t)), Div(num, Prod(<<Sq(a), Sq(t), Pow(r, 1, 2)>>))>>)
Bx(kind, t, i, x) ==
  CASE kind = "Isotropic" -> Div(N(1), PiE)
    [] kind = "CosineLobe" -> Div(Pow(Fn("pos", x), i, 1), PiE)
    [] kind = "HenyeyGreenstein" -> Div(HG(t, x), PiE)
    [] kind = "HG_nadirnorm" -> Div(HG(t, x), Mul(PiE, NadirNorm(t, V("as1"))))
P(kind, t) == Px(kind, t, Ang(AV))
B(kind, t, i) == Bx(kind, t, i, Ang(AS))

\* Legendre polynomials (recursion of Bonnet) and the angles of the expansions used by the interaction term:
\* incident radiation scattered downwards into (ths, phs), and from there by the ground towards the exit direction
RECURSIVE Leg(_, _)
Leg(n, x) == CASE n = 0 -> N(1) [] n = 1 -> x
               [] OTHER -> Div(Sub(Prod(<<N(2 * n - 1), x, Leg(n - 1, x)>>), Mul(N(n - 1), Leg(n - 2, x))), N(n))
AngIn == Subst(Ang(AV), [t0 |-> Sub(PiE, V("t0")), tex |-> V("ths"), pex |-> V("phs")])
AngOut == Subst(Ang(AS), [t0 |-> V("ths"), p0 |-> V("phs")])
\* first order interaction: single scattering before / after the reflection at the ground
Mu == Cos(V("ths"))
Fint(mu0) == Prod(<<Div(Mu, Sub(mu0, Mu)), Sub(Exp(Neg(Div(V("tau"), mu0))), Exp(Neg(Div(V("tau"), Mu)))), V("pexp"), V("bexp")>>)
Interaction(mu0, mux) ==
  Prod(<<V("NormBRDF"), Sub(N(1), V("bsf")), V("I0"), mu0, V("omega"),
         Add(Mul(Exp(Neg(Div(V("tau"), mux))), V("F1")), Mul(Exp(Neg(Div(V("tau"), mu0))), V("F2")))>>)

\* contributions; p and brdf are function symbols, the parameters are variables
Trans(mu0, mux) == Exp(Neg(Add(Div(V("tau"), mu0), Div(V("tau"), mux))))
Surface(mu0, mux, brdf) ==
  Prod(<<V("NormBRDF"), Add(Mul(Sub(N(1), V("bsf")), Trans(mu0, mux)), V("bsf")), V("I0"), mu0, brdf>>)
Volume(mu0, mux, p) ==
  Prod(<<Sub(N(1), V("bsf")), V("I0"), V("omega"), Div(mu0, Add(mu0, mux)), Sub(N(1), Trans(mu0, mux)), p>>)
\* known finding (property P15): the code's derivative of the volume contribution with respect to tau
\* has the factor 1/mu0 + mux in place of 1/mu0 + 1/mux; what is added to the true derivative by that
KnownTau(mu0, mux, p) ==
  Prod(<<Sub(N(1), V("bsf")), V("I0"), V("omega"), Div(mu0, Add(mu0, mux)), Sub(mux, Div(N(1), mux)), Trans(mu0, mux), p>>)
Sig0(e, mu0) == Prod(<<N(4), PiE, mu0, e>>)
DB(e) == Mul(N(10), Div(Ln(e), Ln(N(10))))
Conv(e, mu0, sig0, dB) == LET s == IF sig0 THEN Sig0(e, mu0) ELSE e IN IF dB THEN DB(s) ELSE s
\* conversion of a value from one convention into another
Back(e, mu0, sig0, dB) == LET l == IF dB THEN Exp(Mul(Div(e, N(10)), Ln(N(10)))) ELSE e
                          IN IF sig0 THEN Div(l, Prod(<<N(4), PiE, mu0>>)) ELSE l
M0 == Cos(V("t0"))
MX == Cos(V("tex"))
Part(c) == CASE c = "surface" -> Surface(M0, MX, F("brdf"))
             [] c = "volume" -> Volume(M0, MX, F("p"))
             [] c = "tot" -> Add(Surface(M0, MX, F("brdf")), Volume(M0, MX, F("p")))
MonoPart(c) == Subst(Part(c), Mono)
=============================================================================
