------------------------------- MODULE ModelGen -------------------------------
(* Emits the expressions the harness evaluates: one state per requested item.    *)
(*   <<"TREE", name, tree>>                                                       *)
EXTENDS ModelExpr, TLC, Json
CONSTANT Want            \* subset of {"fn", "dfn", "slope", "jac", "fit", "val"}
Orders == 0..2
CL == 0..5
\* phase functions and BRDFs, bistatic, and derivatives along the monostatic angle and t
FnItems == {<<"V", k, 0>> : k \in VolKinds} \cup {<<"S", k, 0>> : k \in SrfKinds \ {"CosineLobe"}}
           \cup {<<"S", "CosineLobe", i>> : i \in CL}
FnTree(it) == IF it[1] = "V" THEN P(it[2], V("t")) ELSE B(it[2], V("t"), it[3])
Params == {"tau", "omega", "NormBRDF", "bsf"}
Convs == {<<s, d>> : s \in BOOLEAN, d \in BOOLEAN}
Comps == {"surface", "volume", "tot"}
\* symbol are opaque: d brdf, d p are the variables "dbrdf", "dp"
RECURSIVE AsVar(_)
AsVar(e) == \* function symbols of order 0 as linear functions of a parameter "par": brdf + (par) dbrdf at par = 0
  CASE e[1] = "f" -> Add(V(e[2]), Mul(V("par"), V(IF e[2] = "p" THEN "dp" ELSE "dbrdf")))
    [] e[1] \in {"n", "v"} -> e
    [] e[1] = "+" -> Add(AsVar(e[2]), AsVar(e[3]))
    [] e[1] = "*" -> Mul(AsVar(e[2]), AsVar(e[3]))
    [] e[1] = "/" -> Div(AsVar(e[2]), AsVar(e[3]))
    [] e[1] = "^" -> Pow(AsVar(e[2]), e[3], e[4])
    [] OTHER -> Fn(e[1], AsVar(e[2]))
At0(e) == Subst(e, [par |-> N(0), del |-> N(0)])

\* definitions of the fit models (names of the harness): parameters in terms of the fitted symbols
FV(x) == V(x)
FitDef(m) ==
  CASE m = "a" -> [tau |-> FV("tau"), omega |-> FV("omega"), NormBRDF |-> FV("NormBRDF"), bsf |-> FV("bsf")]
    [] m = "b" -> [tau |-> Add(Mul(FV("x"), FV("y2")), Q(1, 10)), omega |-> FV("omega"), NormBRDF |-> FV("n1"), bsf |-> N(0)]
    [] m = "c" -> [tau |-> Mul(FV("k"), FV("x")), omega |-> Sq(FV("om")), NormBRDF |-> FV("NormBRDF"), bsf |-> N(0)]
    [] m = "d" -> [tau |-> Add(Mul(FV("k"), Sq(FV("x"))), Q(1, 10)), omega |-> FV("om"),
                   NormBRDF |-> Add(Mul(FV("n1"), Q(1, 2)), Q(1, 10)), bsf |-> FV("bsf")]
    [] m = "e" -> [tau |-> Q(2, 5), omega |-> Q(1, 5), NormBRDF |-> Q(3, 10), bsf |-> N(0)]
    [] m = "f" -> [tau |-> FV("s"), omega |-> Mul(FV("s"), Q(1, 2)), NormBRDF |-> FV("s"), bsf |-> N(0)]
    [] m = "g" -> [tau |-> FV("tau"), omega |-> Mul(FV("u"), FV("z")), NormBRDF |-> Sub(N(1), FV("u")), bsf |-> N(0)]
FitP(m) ==
  CASE m = "a" -> P("Rayleigh", N(0)) [] m = "b" -> P("HenyeyGreenstein", FV("t_v"))
    [] m = "c" -> Add(Mul(FV("fr"), P("Rayleigh", N(0))), Mul(Sub(N(1), FV("fr")), P("HenyeyGreenstein", Q(1, 5))))
    [] m = "d" -> P("HenyeyGreenstein", Q(3, 10)) [] m = "e" -> P("HGRayleigh", FV("t_v"))
    [] m = "f" -> P("HenyeyGreenstein", FV("s")) [] m = "g" -> P("HGRayleigh", FV("u"))
FitB(m) ==
  CASE m = "a" -> B("HG_nadirnorm", FV("t"), 0) [] m = "b" -> B("CosineLobe", N(0), 3)
    [] m = "c" -> B("HenyeyGreenstein", FV("t_s"), 0) [] m = "d" -> B("CosineLobe", N(0), 4)
    [] m = "e" -> B("Isotropic", N(0), 0) [] m = "f" -> B("HenyeyGreenstein", FV("s"), 0)
    [] m = "g" -> Add(Mul(FV("z"), B("HG_nadirnorm", FV("u"), 0)), Mul(Q(1, 2), B("Isotropic", N(0), 0)))
RECURSIVE Plug(_, _, _)
Plug(e, p, b) ==
  CASE e[1] = "f" -> IF e[2] = "p" THEN p ELSE b
    [] e[1] \in {"n", "v"} -> e
    [] e[1] \in {"+", "*", "/"} -> <<e[1], Plug(e[2], p, b), Plug(e[3], p, b)>>
    [] e[1] = "^" -> <<"^", Plug(e[2], p, b), e[3], e[4]>>
    [] OTHER -> Fn(e[1], Plug(e[2], p, b))
MonoA == [av1 |-> N(0 - 1), av2 |-> N(1), av3 |-> N(1), as1 |-> N(1), as2 |-> N(1), as3 |-> N(1), p0 |-> N(0)]
\* linear model of a fit; the conventions are applied to an opaque linear value
FitLin(m) == LET e == Subst(MonoPart("tot"), FitDef(m))
             IN Subst(Subst(Plug(e, Subst(FitP(m), Mono), Subst(FitB(m), Mono)), MonoA), [I0 |-> N(1)])
FitKnown(m, x) == LET e == Subst(Subst(KnownTau(M0, MX, F("p")), Mono), FitDef(m))
                  IN Mul(Subst(Subst(Plug(e, Subst(FitP(m), Mono), N(0)), MonoA), [I0 |-> N(1)]), D(FitDef(m).tau, x))
FitSyms(m) == CASE m = "a" -> {"omega", "tau", "t", "NormBRDF", "bsf"} [] m = "b" -> {"omega", "x", "y2", "t_v", "n1"}
                [] m = "c" -> {"om", "k", "x", "t_s", "fr", "NormBRDF"} [] m = "d" -> {"om", "x", "k", "n1", "bsf"}
                [] m = "e" -> {"t_v"} [] m = "f" -> {"s"} [] m = "g" -> {"tau", "u", "z"}
FitModels == {"a", "b", "c", "d", "e", "f", "g"}

\* items: <<kind, text, text, number, conventions, conventions>>
No == <<FALSE, FALSE>>
It(k, a, b, n, c, d) == <<k, a, b, n, c, d>>
W(k, S) == IF k \in Want THEN S ELSE {}
Items ==
  W("fn", {It("fn", f[1], f[2], f[3], No, No) : f \in FnItems})
  \cup W("dfn", {It(k, f[1], f[2], f[3], No, No) : f \in FnItems, k \in {"dfn1", "dfn2", "dfnt"}})
  \cup W("slope", {It("slope", c, "", n, cv, No) : c \in Comps, cv \in Convs, n \in Orders})
  \cup W("jac", {It("jac", x, "", 0, cv, No) : x \in Params \cup {"par"}, cv \in Convs})
  \cup W("jac", {It("jacknown", "tau", "", 0, cv, No) : cv \in Convs})
  \cup W("fit", UNION {{It("fitknown", m, x, 0, No, No) : x \in FitSyms(m)} : m \in FitModels})
  \cup W("val", {It("val", c, "", 0, cv, No) : c \in Comps, cv \in Convs})
  \cup W("conv", {It("conv", "", "", 0, a, b) : a \in Convs, b \in Convs})
  \cup W("fit", UNION {{It("fit", m, x, 0, No, No) : x \in FitSyms(m) \cup {""}} : m \in FitModels})
  \cup W("leg", {It("legpoly", "", "", n, No, No) : n \in 0..9} \cup {It(k, "", "", 0, No, No) : k \in {"angin", "angout"}}
                 \cup {It("fnx", f[1], f[2], f[3], No, No) : f \in FnItems})
  \cup W("int", {It(k, "", "", 0, No, No) : k \in {"fint", "inter"}})
  \cup W("fit", {It("outer", "", "", n, cv, No) : cv \in Convs, n \in {0, 1}})
  \cup W("fitslope", {It("fitslope", m, "", n, No, No) : m \in FitModels, n \in Orders}
                      \cup {It("outerth", "", "", n, cv, No) : cv \in Convs, n \in Orders})
FnT(i) == FnTree(<<i[2], i[3], i[4]>>)
Tree(i) ==
  CASE i[1] = "fn" -> FnT(i)
    [] i[1] = "dfn1" -> DN(Subst(FnT(i), Mono), "th", 1)
    [] i[1] = "dfn2" -> DN(Subst(FnT(i), Mono), "th", 2)
    [] i[1] = "dfnt" -> D(FnT(i), "t")
    [] i[1] = "slope" -> DN(Conv(MonoPart(i[2]), Cos(V("th")), i[5][1], i[5][2]), "th", i[4])
    [] i[1] = "jac" -> At0(D(Conv(AsVar(Part("tot")), M0, i[5][1], i[5][2]), i[2]))
    [] i[1] = "jacknown" -> At0(D(Conv(Add(AsVar(Part("tot")), Mul(V("del"), KnownTau(M0, MX, V("p")))), M0, i[5][1], i[5][2]), "del"))
    [] i[1] = "fitknown" -> FitKnown(i[2], i[3])
    [] i[1] = "val" -> Conv(Part(i[2]), M0, i[5][1], i[5][2])
    [] i[1] = "conv" -> Conv(Back(V("val"), M0, i[5][1], i[5][2]), M0, i[6][1], i[6][2])
    [] i[1] = "fit" -> IF i[3] = "" THEN FitLin(i[2]) ELSE D(FitLin(i[2]), i[3])
    [] i[1] = "legpoly" -> Leg(i[4], V("x"))
    [] i[1] = "angin" -> AngIn
    [] i[1] = "angout" -> AngOut
    [] i[1] = "fnx" -> IF i[2] = "V" THEN Px(i[3], V("t"), V("x")) ELSE Bx(i[3], V("t"), i[4], V("x"))
    [] i[1] = "fint" -> Fint(M0)
    [] i[1] = "inter" -> Interaction(M0, MX)
    [] i[1] = "fitslope" -> DN(FitLin(i[2]), "th", i[4])
    [] i[1] = "outerth" -> DN(Conv(F("lin"), Cos(V("th")), i[5][1], i[5][2]), "th", i[4])
    [] i[1] = "outer" -> DN(Conv(F("lin"), Cos(V("inc")), i[5][1], i[5][2]), "th", i[4])
VARIABLE todo
Init == todo = Items
Next == \E i \in todo : /\ i = CHOOSE x \in todo : TRUE
                        /\ todo' = todo \ {i}
                        /\ PrintT(<<"TREE", ToJson(<<i, Tree(i)>>)>>)
Spec == Init /\ [][Next]_todo
=============================================================================
