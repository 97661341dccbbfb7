------------------------------- MODULE ModelObj -------------------------------
(* A model object of RT1: the attributes a user can assign, the expensive         *)
(* intermediate results the object keeps (the coefficients of the interaction     *)
(* term, their compiled form, compiled derivatives), which assignment has to      *)
(* discard which of them, and histories of assignments and evaluations.           *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
CONSTANTS Vers,          \* number of alternative values per attribute
          Depth, Emit,   \* length of generated histories, TRUE to print them
          Only           \* attributes that are assigned
Angles == <<"t_0", "t_ex", "p_0", "p_ex">>
AttrSet == {"geometry", "t_0", "t_ex", "p_0", "p_ex", "V", "SRF", "tau", "omega", "NormBRDF", "bsf", "I0", "par", "keys", "int_Q"}
ASSUME Only \subseteq AttrSet
Geos == <<"mono", "vvvv", "vvff", "fvfv", "vffv">>
Fixed(g) == CASE g = "vvff" -> {"p_0", "p_ex"} [] g = "fvfv" -> {"t_0", "p_0"} [] g = "vffv" -> {"t_ex", "p_0"}
              [] g = "mono" -> {"p_0"} [] OTHER -> {}
Caches == {"fn", "fnevals", "dsrf", "dvol"}
VARIABLES attr, cache, hist
vars == <<attr, cache, hist>>
None == 99
Init == /\ attr = [a \in AttrSet |-> 0]
        /\ cache = [c \in Caches |-> <<>>]
        /\ hist = <<>>
Geo(at) == Geos[at["geometry"] + 1]
Mono(at) == Geo(at) = "mono"
\* what a cached result is computed from
Deps(c, at) == LET f == {"geometry", "V", "SRF", "int_Q"} \cup Fixed(Geo(at))
               IN CASE c = "fn" -> f [] c = "fnevals" -> f \cup {"keys"}
                    [] c = "dsrf" -> {"SRF", "keys"} [] c = "dvol" -> {"V", "keys"}
Snap(c, at) == [a \in Deps(c, at) |-> at[a]]
\* the caches an assignment has to discard
Discard(a, at) ==
  CASE a \in {"geometry", "int_Q"} -> {"fn", "fnevals"}
    [] a \in {"V", "SRF"} -> Caches
    [] a = "keys" -> {"fnevals", "dsrf", "dvol"}
    [] a \in Fixed(Geo(at)) -> {"fn", "fnevals"}
    [] OTHER -> {}
MaxV(a) == CASE a = "geometry" -> 4 [] a = "int_Q" -> 1 [] OTHER -> Vers - 1
\* in monostatic geometry the exit direction follows the incident one
Ignored(a, at) == a \in {"t_ex", "p_ex"} /\ Mono(at)
Assign(a, v) ==
  /\ Len(hist) < Depth
  /\ v # attr[a] /\ ~Ignored(a, attr)
  /\ LET at == [attr EXCEPT ![a] = v] IN
     /\ attr' = at
     /\ cache' = [c \in Caches |-> IF c \in Discard(a, at) THEN <<>> ELSE cache[c]]
  /\ hist' = Append(hist, <<"set", a, v>>)
\* version 2 of an angle varies between the observations, versions 0 and 1 are the same for all of them
Valid(at) == \A a \in Fixed(Geo(at)) : at[a] < 2
Needs(q, at) == CASE q \in {"calc", "interaction"} -> {"fn", "fnevals"} [] q = "jacobian" -> {"dsrf", "dvol"} [] OTHER -> {}
CanEval(q, at) ==
  /\ q = "interaction" => at["int_Q"] = 1
  /\ q \in {"slope"} => Mono(at) /\ at["p_0"] < 2
  /\ (q \in {"calc", "interaction"} /\ at["int_Q"] = 1) => Valid(at)
Eval(q) ==
  /\ Len(hist) < Depth
  /\ CanEval(q, attr)
  /\ cache' = [c \in Caches |-> IF c \in Needs(q, attr) /\ cache[c] = <<>> /\ (q = "calc" => attr["int_Q"] = 1)
                                THEN <<Snap(c, attr)>> ELSE cache[c]]
  /\ hist' = Append(hist, <<"eval", q, 0>>)
  /\ UNCHANGED attr
EvalSet == {"calc", "interaction", "surface", "volume", "jacobian", "slope"}
Step == \/ \E a \in Only : \E v \in 0..MaxV(a) : Assign(a, v)
        \/ \E q \in EvalSet : Eval(q)
Finish == /\ Emit /\ Len(hist) = Depth
          /\ PrintT(<<"BEH", ToJson(hist)>>)
          /\ UNCHANGED <<attr, cache>> /\ hist' = Append(hist, <<"end", "", 0>>)
\* generation: assignments and evaluations alternate in random proportions
Pick(S) == {RandomElement(S)}
GenStep == \/ \E a \in Pick(Only) : \E v \in Pick(0..MaxV(a)) : Assign(a, v)
           \/ \E a \in Pick({"geometry", "V", "SRF", "keys", "p_0", "par"} \cap Only) : \E v \in Pick(0..MaxV(a)) : Assign(a, v)
           \/ \E q \in Pick(EvalSet) : Eval(q)
           \/ \E q \in Pick({"calc", "interaction", "jacobian"}) : Eval(q)
Next == IF Emit THEN GenStep \/ Finish ELSE Step
Spec == Init /\ [][Next]_vars
\* every result an evaluation can use was computed from the current attributes
Fresh == \A c \in Caches : cache[c] # <<>> => cache[c][1] = Snap(c, attr)
View == <<attr, cache>>
=============================================================================
