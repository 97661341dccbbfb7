------------------------------- MODULE Config -------------------------------
(* Configuration files: sections of options with textual values, shared ones *)
(* and ones of a single configuration, overrides at run time and the copies  *)
(* kept in the processing folders.                                           *)
(*                                                                           *)
(* A file is a function from options to the number of one of the texts an    *)
(* option of that type may have (0: the option is missing); the texts and    *)
(* what each of them means are the tables below.                             *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Options,      \* the options <<section, configuration, name>> considered
          Width(_),     \* number of texts used for a type
          MaxOps, Design, Random
VARIABLES given, init, copies, used, hist, phase
vars == <<given, init, copies, used, hist, phase>>

Cfgs == {"a", "b"}
Folders == {"d0", "d1"}

-----------------------------------------------------------------------------
(* the texts of each type and their meaning *)
T(r, m) == [r |-> r, m |-> m]
NoneM == <<"n">>
I(n) == <<"i", n>>
F(m, e) == <<"f", m, e>>             \* m * 10^e
B(b) == <<"b", b>>
S(s) == <<"s", s>>
L(s) == <<"l", s>>
D(s) == <<"d", s>>                   \* year, month, day, hour, minute, second, microsecond

IntT == << T("0", I(0)), T("3", I(3)), T("12", I(12)), T("-2", I(0 - 2)), T("+7", I(7)), T("005", I(5)) >>
FloatT == << T("0.5", F(5, 0 - 1)), T("2", F(2, 0)), T("1e-3", F(1, 0 - 3)), T(".25", F(25, 0 - 2)),
             T("1.E4", F(1, 4)), T("-0.75", F(0 - 75, 0 - 2)), T("1.", F(1, 0)), T("0", F(0, 0)) >>
BoolT == << T("True", B(TRUE)), T("False", B(FALSE)), T("1", B(TRUE)), T("0", B(FALSE)), T("yes", B(TRUE)),
            T("No", B(FALSE)), T("on", B(TRUE)), T("OFF", B(FALSE)), T("true", B(TRUE)), T("false", B(FALSE)) >>
NoneT == << T("None", NoneM), T("", NoneM) >>
WordT == << T("trf", S("trf")), T("jac", S("jac")), T("soft_l1", S("soft_l1")), T("5", S("5")),
            T("True", S("True")), T("two words", S("two words")), T("A=b", S("A=b")), T("none", S("none")) >>
FormulaT == << T("omega", S("omega")), T("tau * x2", S("tau * x2")), T("t_v", S("t_v")), T("(1 - bsf)*tau**2", S("(1 - bsf)*tau**2")) >>
ListT == << T("[-1., 1., 1.]", L(<<F(0 - 1, 0), F(1, 0), F(1, 0)>>)), T("[1,1,-.5]", L(<<F(1, 0), F(1, 0), F(0 - 5, 0 - 1)>>)) >>
VNameT == << T("HenyeyGreenstein", S("HenyeyGreenstein")), T("Rayleigh", S("Rayleigh")), T("LinCombV", S("LinCombV")) >>
SNameT == << T("HG_nadirnorm", S("HG_nadirnorm")), T("CosineLobe", S("CosineLobe")), T("LinCombSRF", S("LinCombSRF")) >>
VPartT == SubSeq(VNameT, 1, 2)
SPartT == SubSeq(SNameT, 1, 2)
FolderT == << T("d0", S("d0")), T("d1", S("d1")) >>
DateT == << T("23.3.2020 fmt=%d.%m.%Y", D(<<2020, 3, 23, 0, 0, 0, 0>>)),
            T("22-1-17 12:34 fmt= %d-%m-%y %H:%M", D(<<2017, 1, 22, 12, 34, 0, 0>>)),
            T("2019-12-31 23:59:58.250000", D(<<2019, 12, 31, 23, 59, 58, 250000>>)),
            T("01022003fmt=%d%m%Y", D(<<2003, 2, 1, 0, 0, 0, 0>>)) >>
Names == << "a", "B", "AbCd#", "x y", "None", "1" >>
PathT == << T("@ROOT@/p/q", <<"p", "p/q">>), T("@ROOT@/p/../r", <<"p", "r">>), T("@ROOT@", <<"p", "">>), T("@ROOT@/Some Dir", <<"p", "Some Dir">>) >>
\* references to another option of the same file
RefT == << T("${base}/x", <<"ref", "/x">>), T("${PROCESS_SPECS:base}", <<"ref", "">>) >>

(* a parameter definition from its parts; the last two are optional *)
DefVals == << T("0.3", F(3, 0 - 1)), T("1", F(1, 0)), T("auxiliary", S("auxiliary")), T("5.e-2", F(5, 0 - 2)) >>
DefFreqs == << T("None", NoneM), T("2M", S("2M")), T("index", S("index")), T("manual", S("manual")), T("30D", S("30D")) >>
DefText(b, v, f, lo, hi, i, sp) ==
   LET sep == IF sp THEN ", " ELSE ","
       flag == IF b THEN "True" ELSE "False"
       tail == CASE i = 0 -> "" [] i = 1 -> sep \o "True" [] OTHER -> sep \o "False"
   IN T("[" \o flag \o sep \o v.r \o sep \o f.r \o sep \o (IF sp THEN " " ELSE "") \o lo.r \o sep \o hi.r \o tail \o "]",
        <<"def", b, v.m, f.m, lo.m, hi.m, i = 1>>)
DefShort(b, v) == T("[" \o (IF b THEN "True" ELSE "False") \o ", " \o v.r \o "]", <<"def", b, v.m>>)
DefT == << DefShort(FALSE, DefVals[1]), DefShort(FALSE, DefVals[3]),
           DefText(TRUE, DefVals[1], DefFreqs[1], FloatT[3], FloatT[1], 0, TRUE),
           DefText(TRUE, DefVals[3], DefFreqs[2], FloatT[3], FloatT[2], 1, FALSE),
           DefText(TRUE, DefVals[4], DefFreqs[3], FloatT[8], FloatT[7], 2, TRUE),
           DefText(TRUE, DefVals[2], DefFreqs[4], FloatT[6], FloatT[4], 0, FALSE),
           DefText(FALSE, DefVals[1], DefFreqs[5], FloatT[8], FloatT[2], 1, TRUE),
           DefShort(FALSE, DefVals[2]) >>

(* lists of values in the processing specifications *)
RECURSIVE Join(_, _)
Join(s, sep) == IF Len(s) = 0 THEN "" ELSE IF Len(s) = 1 THEN s[1] ELSE s[1] \o sep \o Join(Tail(s), sep)
ListOf(toks, sep) == T("[" \o Join([i \in DOMAIN toks |-> toks[i].r], sep) \o "]", L([i \in DOMAIN toks |-> toks[i].m]))
Lists(tab) == << ListOf(<<tab[1]>>, ","), ListOf(<<tab[2], tab[1], tab[2]>>, ","), ListOf(<<tab[3], tab[4]>>, " , "),
                 ListOf(tab, ", "), T("[]", L(<<>>)) >>
NameList == Lists([i \in DOMAIN Names |-> T(Names[i], S(Names[i]))])
DateList == << T("[22-1-17 12:34, 24-3-19 11:13]   fmt= %d-%m-%y %H:%M",
                 L(<<D(<<2017, 1, 22, 12, 34, 0, 0>>), D(<<2019, 3, 24, 11, 13, 0, 0>>)>>)),
               T("[2019-12-31 23:59:58.250000]", L(<<D(<<2019, 12, 31, 23, 59, 58, 250000>>)>>)) >>

Table(ty) == CASE ty = "int" -> IntT [] ty = "int?" -> IntT \o NoneT
               [] ty = "float?" -> FloatT \o NoneT [] ty = "float" -> FloatT
               [] ty = "bool" -> BoolT [] ty = "word" -> WordT \o NoneT
               [] ty = "num" -> FloatT \o FormulaT [] ty = "list" -> ListT
               [] ty = "def" -> DefT [] ty = "Vname" -> VNameT [] ty = "Sname" -> SNameT
               [] ty = "Vpart" -> VPartT [] ty = "Spart" -> SPartT [] ty = "folder" -> FolderT
               [] ty = "date?" -> DateT \o SubSeq(NoneT, 1, 1) [] ty = "path?" -> PathT \o SubSeq(NoneT, 1, 1)
               [] ty = "base" -> << T("q", S("q")), T("some/where", S("some/where")) >>
               [] ty = "ref" -> RefT
               [] ty = "ints" -> Lists(IntT) \o NoneT [] ty = "floats" -> Lists(FloatT)
               [] ty = "bools" -> Lists(BoolT) [] ty = "names" -> NameList [] ty = "dates" -> DateList

(* the declared type of an option *)
PartKeys == {"A__V_name", "B__V_name", "A__t", "B__t", "A__ncoefs", "B__ncoefs", "A__frac", "B__frac", "B__a",
             "A__SRF_name", "B__SRF_name", "A__i"}
TypeOf(s, k) ==
   CASE s = "lsq" /\ k \in {"verbose", "max_nfev"} -> "int?"
     [] s = "lsq" /\ k \in {"ftol", "gtol", "xtol"} -> "float?"
     [] s = "fits" /\ k \in {"sig0", "dB", "int_Q"} -> "bool"
     [] s = "fits" /\ k = "verbose" -> "int?"
     [] s \in {"lsq", "fits"} -> "word"
     [] s = "def" -> "def"
     [] s = "V" /\ k = "V_name" -> "Vname"
     [] s = "SRF" /\ k = "SRF_name" -> "Sname"
     [] k \in {"A__V_name", "B__V_name"} -> "Vpart"
     [] k \in {"A__SRF_name", "B__SRF_name"} -> "Spart"
     [] k \in {"ncoefs", "A__ncoefs", "B__ncoefs", "A__i"} -> "int"
     [] k \in {"a", "B__a"} -> "list"
     [] s \in {"V", "SRF"} -> "num"
     [] k = "dumpfolder" -> "folder" [] k = "base" -> "base"
     [] k \in {"other", "path__rel"} -> "ref"
     [] k \in {"int__i", "int__int__x"} -> "int?" [] k = "float__f" -> "float?" [] k = "bool__b" -> "bool"
     [] k = "path__p" -> "path?" [] k = "datetime__d" -> "date?"
     [] k = "list__int__li" -> "ints" [] k = "list__float__lf" -> "floats" [] k = "list__bool__lb" -> "bools"
     [] k = "list__ls" -> "names" [] k = "list__datetime__ld" -> "dates"
     [] OTHER -> "word"
\* the name under which a processing specification is available
SpecName(k) == CASE k = "int__i" -> "i" [] k = "int__int__x" -> "int__x" [] k = "float__f" -> "f" [] k = "bool__b" -> "b"
                 [] k = "path__p" -> "p" [] k = "path__rel" -> "rel" [] k = "datetime__d" -> "d"
                 [] k = "list__int__li" -> "li" [] k = "list__float__lf" -> "lf" [] k = "list__bool__lb" -> "lb"
                 [] k = "list__ls" -> "ls" [] k = "list__datetime__ld" -> "ld" [] OTHER -> k

Must == {<<"PROC", "", "dumpfolder">>, <<"V", "", "V_name">>, <<"SRF", "", "SRF_name">>, <<"PROC", "", "base">>}
Ty == [o \in Options |-> TypeOf(o[1], o[3])]
Tok(o, i) == Table(Ty[o])[i]
N(o) == LET n == Len(Table(Ty[o])) IN IF Width(Ty[o]) < n THEN Width(Ty[o]) ELSE n
Choice(o) == (IF o \in Must THEN 1 ELSE 0) .. N(o)
Empty == [o \in Options |-> 0]

-----------------------------------------------------------------------------
(* what a file means *)
Over(f, g) == [o \in Options |-> IF g[o] # 0 THEN g[o] ELSE f[o]]
Has(f, o) == o \in Options /\ f[o] # 0
NameOf(s) == IF s = "V" THEN "V_name" ELSE "SRF_name"
Keys(s) == {o[3] : o \in {p \in Options : p[1] = s}}
\* the option that decides key k of section s for configuration c
\* (a configuration that selects another function does not inherit the parts of a combination)
Source(f, s, c, k) ==
   IF c # "" /\ Has(f, <<s, c, k>>) THEN <<s, c, k>>
   ELSE IF k \in PartKeys /\ c # "" /\ Has(f, <<s, c, NameOf(s)>>) THEN <<>>
   ELSE IF Has(f, <<s, "", k>>) THEN <<s, "", k>> ELSE <<>>
Section(f, s, c) ==
   LET ks == {k \in Keys(s) : Source(f, s, c, k) # <<>>}
   IN [k \in ks |-> LET o == Source(f, s, c, k) IN Tok(o, f[o]).m]
Names2(f) == {c \in Cfgs : \E o \in Options : o[2] = c /\ f[o] # 0}
Specs(f) == Section(f, "PROC", "")
FolderOf(f) == IF <<"PROC", "", "dumpfolder">> \in Options THEN FolderT[f[<<"PROC", "", "dumpfolder">>]].r ELSE "d0"

-----------------------------------------------------------------------------
(* sessions *)
\* overriding replaces the overrides made so far, updating keeps those that are not named
Override(kw, replace) ==
   /\ init' = IF replace THEN kw
              ELSE IF Design = "drop-sections"
                   THEN [o \in Options |-> IF kw[o] # 0 THEN kw[o]
                                           ELSE IF \E p \in Options : p[1] = o[1] /\ p[2] = o[2] /\ kw[p] # 0 THEN init[o] ELSE 0]
              ELSE IF Design = "old-first" THEN Over(kw, init)
              ELSE Over(init, kw)
   /\ UNCHANGED <<given, copies, used>>

\* a new session starts with the overrides given to it
Session(kw) == init' = kw /\ UNCHANGED <<given, copies, used>>

\* the given file is changed by the user
Edit(o, i) == given' = [given EXCEPT ![o] = i] /\ UNCHANGED <<init, copies, used>>

\* set-up: the copy of an existing folder is used as it is unless overrides are given
Setup(copy) ==
   LET eff == Over(given, init)
       d == FolderOf(eff)
       keep == copy /\ d \in DOMAIN copies /\ (init = Empty \/ Design = "keep-always")
       now == IF keep THEN copies[d] ELSE eff
   IN /\ copies' = IF copy THEN [x \in DOMAIN copies \cup {d} |-> IF x = d THEN now ELSE copies[x]] ELSE copies
      /\ used' = [cfg |-> now, specs |-> IF Design = "specs-of-given" THEN eff ELSE now, d |-> d, copy |-> copy]
      /\ UNCHANGED <<given, init>>

-----------------------------------------------------------------------------
(* what every set-up and every override has to respect *)
Named(kw) == {o \in Options : kw[o] # 0}
OverridesExact ==
   [][ \A kw \in {init'} : \A replace \in BOOLEAN :
       (Len(hist') > Len(hist) /\ hist'[Len(hist')].op = "override" /\ hist'[Len(hist')].replace = replace) =>
         LET k == hist'[Len(hist')].kw
         IN \A o \in Options : init'[o] = IF o \in Named(k) THEN k[o] ELSE IF replace THEN 0 ELSE init[o] ]_vars
\* one and the same file decides the model and the specifications
OneSource == used.d # "" => used.cfg = used.specs
\* what is used of a kept folder is its copy; explicit overrides always arrive
UsesCopy == (used.d # "" /\ used.copy /\ Len(hist) > 0 /\ hist[Len(hist)].op = "setup") => used.cfg = copies[used.d]
Arrives == (used.d # "" /\ Len(hist) > 0 /\ hist[Len(hist)].op = "setup") =>
              \A o \in Named(init) : used.cfg[o] = init[o]
Untouched == (used.d # "" /\ Len(hist) > 0 /\ hist[Len(hist)].op = "setup" /\ init # Empty) =>
              \A o \in Options \ Named(init) : used.cfg[o] = given[o]
\* a specific definition concerns its configuration only, a shared one all that do not replace it
NoLeak == \A s \in {"lsq", "fits", "def"}, c \in Cfgs \cup {""}, k \in Keys("lsq") \cup Keys("fits") \cup Keys("def") :
            (Source(given, s, c, k) # <<>>) =>
               /\ Source(given, s, c, k)[2] \in {"", c}
               /\ (c # "" /\ Has(given, <<s, c, k>>)) => Source(given, s, c, k)[2] = c

-----------------------------------------------------------------------------
(* exhaustive exploration *)
None0 == [cfg |-> Empty, specs |-> Empty, d |-> "", copy |-> FALSE]
Files == {f \in [Options -> 0..3] : \A o \in Options : f[o] \in Choice(o) /\ f[o] < 3}
Parts == {f \in [Options -> 0..3] : (\A o \in Options : f[o] \in 0..N(o)) /\ Cardinality({o \in Options : f[o] # 0}) <= 2}
View == <<given, init, copies, used, Len(hist), IF hist = <<>> THEN "" ELSE hist[Len(hist)].op>>
Init == /\ given \in (IF Random THEN {Empty} ELSE Files) /\ init = Empty /\ copies = <<>> /\ used = None0
        /\ hist = <<>> /\ phase = "run"
Log(r) == hist' = Append(hist, r) /\ phase' = phase
NextMC == /\ Len(hist) < MaxOps
          /\ \/ \E kw \in Parts, r \in BOOLEAN : Override(kw, r) /\ Log([op |-> "override", kw |-> kw, replace |-> r])
             \/ \E kw \in Parts : init # Empty /\ Session(kw) /\ Log([op |-> "session", kw |-> kw])
             \/ \E o \in Options : \E i \in Choice(o) : i # given[o] /\ Edit(o, i) /\ Log([op |-> "edit"])
             \/ \E c \in BOOLEAN : Setup(c) /\ Log([op |-> "setup"])
SpecMC == Init /\ [][NextMC]_vars

-----------------------------------------------------------------------------
(* generated histories: every step with what has to be observed afterwards *)
Rnd(X) == RandomElement(IF Len(hist) < 0 THEN {} ELSE X)
AsList(f) == LET os == {o \in Options : f[o] # 0}
                 RECURSIVE Go(_)
                 Go(x) == IF x = {} THEN <<>> ELSE LET o == CHOOSE o \in x : TRUE
                          IN <<[s |-> o[1], c |-> o[2], k |-> o[3], r |-> Tok(o, f[o]).r, v |-> (Tok(o, f[o]).r # "")]>> \o Go(x \ {o})
             IN Go(os)
SecList(f, s, c) == LET m == Section(f, s, c)
                        RECURSIVE Go(_)
                        Go(x) == IF x = {} THEN <<>> ELSE LET k == CHOOSE k \in x : TRUE
                                 IN <<[k |-> IF s = "PROC" THEN SpecName(k) ELSE k, m |-> m[k], p |-> (k \in PartKeys)]>> \o Go(x \ {k})
                    IN Go(DOMAIN m)
RECURSIVE ForAll(_, _)
ForAll(f, cs) == IF cs = {} THEN <<>>
                 ELSE LET c == CHOOSE c \in cs : TRUE
                      IN <<[c |-> c, lsq |-> SecList(f, "lsq", c), fits |-> SecList(f, "fits", c), def |-> SecList(f, "def", c),
                            V |-> SecList(f, "V", c), SRF |-> SecList(f, "SRF", c)]>> \o ForAll(f, cs \ {c})
Meaning(f) == [cfgs |-> ForAll(f, Names2(f) \cup {""}), proc |-> SecList(f, "PROC", ""), base |-> Specs(f)["base"]]

\* parts of combinations only make sense where a combination is selected
Comb(i) == i = 3
Sane(f) == [o \in Options |->
   IF o[3] \notin PartKeys THEN f[o]
   ELSE LET nm == <<o[1], o[2], NameOf(o[1])>>
            sh == <<o[1], "", NameOf(o[1])>>
            sel == IF o[2] # "" /\ Has(f, nm) THEN f[nm] ELSE f[sh]
            partname == o[3] \in {"A__V_name", "B__V_name", "A__SRF_name", "B__SRF_name"}
        IN IF ~ Comb(sel) THEN 0
           ELSE IF partname /\ (o[2] = "" \/ Has(f, nm)) /\ f[o] = 0 THEN 1
           ELSE f[o]]
Draw(dens) == TLCEval(Sane(TLCEval([o \in Options |-> IF o \in Must \/ Rnd(1..100) <= dens
                                                       THEN Rnd(1..N(o)) ELSE 0])))
\* overrides never change which functions are selected (nor the parts of combinations)
Free(o) == o[1] \notin {"V", "SRF"} \/ (o[3] \notin PartKeys /\ o[3] # NameOf(o[1]))
\* (only sections that the file has can be overridden)
DrawKw(n) == LET os == {o \in Options : Free(o) /\ (o[2] = "" \/ \E p \in Options : p[1] = o[1] /\ p[2] = o[2] /\ given[p] # 0)}
                 pick == TLCEval([j \in 1..n |-> Rnd(os)])
             IN TLCEval([o \in Options |-> IF \E j \in 1..n : pick[j] = o THEN (CHOOSE i \in {Rnd({i \in 1..N(o) : Tok(o, i).r # ""})} : TRUE) ELSE 0])
Begin == /\ phase = "run" /\ hist = <<>> /\ given = Empty
         /\ \E dens \in {Rnd({15, 35, 60})} : given' = Draw(dens)
         /\ UNCHANGED <<init, copies, used, phase>>
         /\ hist' = <<[op |-> "begin", file |-> AsList(given'), exp |-> Meaning(given')]>>
Step == /\ phase = "run" /\ hist # <<>> /\ Len(hist) <= MaxOps
        /\ phase' = phase
        /\ \E w \in {Rnd(1..10)} :
             \/ /\ w <= 3
                /\ \E n \in {Rnd(0..3)}, r \in {Rnd(BOOLEAN)} : \E kw \in {DrawKw(n)} :
                      Override(kw, r) /\ hist' = Append(hist, [op |-> "override", kw |-> AsList(kw), replace |-> r, init |-> AsList(init')])
             \/ /\ w = 4
                /\ \E n \in {Rnd(0..2)} : \E kw \in {DrawKw(n)} :
                      Session(kw) /\ hist' = Append(hist, [op |-> "session", kw |-> AsList(kw), init |-> AsList(init')])
             \/ /\ w \in {5, 6}
                /\ \E o \in {Rnd({o \in Options : Free(o)})} : \E i \in {Rnd(Choice(o) \ (IF o[2] = "" THEN {} ELSE {0}))} :
                      Edit(o, i) /\ hist' = Append(hist, [op |-> "edit", file |-> AsList(given'), exp |-> Meaning(given')])
             \/ /\ w > 6
                /\ \E c \in {Rnd({TRUE, TRUE, FALSE})} :
                      Setup(c) /\ hist' = Append(hist, [op |-> "setup", copy |-> c, d |-> used'.d, exp |-> Meaning(used'.cfg),
                                                        fresh |-> (used'.d \notin DOMAIN copies)])
Finish == /\ phase = "run" /\ Len(hist) > MaxOps
          /\ phase' = "done" /\ UNCHANGED <<given, init, copies, used, hist>>
          /\ PrintT(<<"BEH", ToJson(hist)>>)
NextGen == Begin \/ Step \/ Finish
SpecGen == Init /\ [][NextGen]_vars

-----------------------------------------------------------------------------
SmallOptions == {<<"lsq", "", "ftol">>, <<"lsq", "a", "ftol">>, <<"PROC", "", "int__i">>, <<"PROC", "", "dumpfolder">>}
SmallWidth(ty) == IF ty = "float?" THEN 2 ELSE IF ty = "int?" THEN 1 ELSE 2
AllOptions ==
   LET lsq == {"verbose", "max_nfev", "ftol", "gtol", "xtol", "method", "x_scale"}
       fits == {"sig0", "dB", "int_Q", "verbose", "ID"}
       def == {"omega", "tau", "t_v", "bsf", "x2"}
       V == {"V_name", "tau", "omega", "t", "ncoefs", "a", "A__V_name", "B__V_name", "A__t", "B__t", "A__ncoefs", "B__ncoefs",
             "A__frac", "B__frac", "B__a"}
       SRF == {"SRF_name", "NormBRDF", "t", "ncoefs", "a", "A__SRF_name", "B__SRF_name", "A__t", "B__t", "A__ncoefs", "A__frac", "B__frac"}
       PROC == {"dumpfolder", "base", "other", "path__rel", "int__i", "int__int__x", "float__f", "bool__b", "path__p", "datetime__d",
                "list__int__li", "list__float__lf", "list__bool__lb", "list__ls", "list__datetime__ld", "word1", "word2"}
       C == Cfgs \cup {""}
   IN {<<"lsq", c, k>> : c \in C, k \in lsq} \cup {<<"fits", c, k>> : c \in C, k \in fits} \cup {<<"def", c, k>> : c \in C, k \in def}
      \cup {<<"V", c, k>> : c \in C, k \in V} \cup {<<"SRF", c, k>> : c \in C, k \in SRF} \cup {<<"PROC", "", k>> : k \in PROC}
AllWidth(ty) == 1000
=============================================================================
