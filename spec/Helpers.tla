------------------------------ MODULE Helpers ------------------------------
(* The list and array helpers as total functions on sequences of integers,   *)
(* their defining laws (checked by TLC over every small input), and - via     *)
(* Expect - the oracle for the recorded results of the real helpers.          *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt

Set(s) == {s[i] : i \in DOMAIN s}
Min2(a, b) == IF a < b THEN a ELSE b
SMin(S) == CHOOSE a \in S : \A b \in S : a <= b
SMax(S) == CHOOSE a \in S : \A b \in S : a >= b
RECURSIVE Sum(_)
Sum(s) == IF s = <<>> THEN 0 ELSE Head(s) + Sum(Tail(s))
RECURSIVE Cat(_)
Cat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Cat(Tail(ss))

(* ---- grouping: <<key, positions>> in order of first appearance ---- *)
FirstPos(s, x) == SMin({i \in DOMAIN s : s[i] = x})
Firsts(s) == SelectSeq([i \in DOMAIN s |-> i], LAMBDA i : FirstPos(s, s[i]) = i)
Positions(s, x) == SelectSeq([i \in DOMAIN s |-> i], LAMBDA i : s[i] = x)
Group(s) == [j \in DOMAIN Firsts(s) |-> <<s[Firsts(s)[j]], Positions(s, s[Firsts(s)[j]])>>]
SortedKeys(s) == SetToSortSeq(Set(s), LAMBDA a, b : a < b)
GroupSorted(s) == [j \in DOMAIN SortedKeys(s) |-> <<SortedKeys(s)[j], Positions(s, SortedKeys(s)[j])>>]

(* ---- chunks of 1..n (as sequences of positions) ---- *)
Ival(a, b) == [i \in 1..(b - a + 1) |-> a + i - 1]
Chunks(n, c) == [j \in 1..((n + c - 1) \div c) |-> Ival((j - 1) * c + 1, Min2(j * c, n))]

(* ---- split 1..n into the given sizes; -1 = all the rest, then stop ---- *)
RECURSIVE Split(_, _, _)
Split(n, at, sizes) ==
  IF sizes = <<>> THEN <<>>
  ELSE IF Head(sizes) < 0 THEN <<Ival(at, n)>>
  ELSE <<Ival(at, Min2(n, at + Head(sizes) - 1))>> \o Split(n, Min2(n + 1, at + Head(sizes)), Tail(sizes))

(* ---- padding: rows of lengths lens to width w: column -> source column ---- *)
Width(lens, dim) == IF dim = 0 THEN SMax(Set(lens)) ELSE dim
Pad(lens, dim) == [r \in DOMAIN lens |-> [c \in 1..Width(lens, dim) |-> Min2(c, lens[r])]]
PadMask(lens, dim) == [r \in DOMAIN lens |-> [c \in 1..Width(lens, dim) |-> IF c > lens[r] THEN 1 ELSE 0]]

(* ---- the first n numbers not taken ---- *)
RECURSIVE Free(_, _, _)
Free(used, from, n) == IF n = 0 THEN <<>>
                       ELSE IF from \in used THEN Free(used, from + 1, n)
                       ELSE <<from>> \o Free(used, from + 1, n - 1)

(* ---- sliding windows ---- *)
Windows(n, k) == [j \in 1..(IF n >= k THEN n - k + 1 ELSE 0) |-> Ival(j, j + k - 1)]

(* ---- rescaling to <<lo, hi>>: numerators over (max - min) ---- *)
Scale(s, lo, hi) == LET a == SMin(Set(s)) b == SMax(Set(s)) IN
                    [i \in DOMAIN s |-> (s[i] - a) * (hi - lo) + lo * (b - a)]

(* ---- durations ---- *)
Hms(t) == <<t \div 86400, (t % 86400) \div 3600, (t % 3600) \div 60, t % 60>>

Expect(k, x) ==
  CASE k = "group" -> Group(x.s)
    [] k = "groupsorted" -> GroupSorted(x.s)
    [] k = "chunk" -> Chunks(x.n, x.c)
    [] k = "split" -> Split(x.n, 1, x.sizes)
    [] k = "pad" -> Pad(x.lens, x.dim)
    [] k = "padmask" -> PadMask(x.lens, x.dim)
    [] k = "missing" -> Free(Set(x.s), 0, x.n)
    [] k = "windows" -> Windows(x.n, x.c)
    [] k = "scale" -> Scale(x.s, x.lo, x.hi)
    [] k = "hms" -> Hms(x.n)
    [] k = "mean" -> <<Sum(x.s)>>          \* n times the mean offset

(* ---- laws ---- *)
Law(k, x) ==
  LET e == Expect(k, x) IN
  CASE k \in {"group", "groupsorted"} ->
         /\ \A i \in DOMAIN x.s : Cardinality({j \in DOMAIN e : i \in Set(e[j][2])}) = 1
         /\ \A j \in DOMAIN e : \A i \in DOMAIN x.s : i \in Set(e[j][2]) <=> x.s[i] = e[j][1]
         /\ \A i, j \in DOMAIN e : i < j =>
              IF k = "group" THEN e[i][2][1] < e[j][2][1] ELSE e[i][1] < e[j][1]
         /\ \A j \in DOMAIN e : \A a, b \in DOMAIN e[j][2] : a < b => e[j][2][a] < e[j][2][b]
    [] k = "chunk" -> /\ Cat(e) = Ival(1, x.n)
                      /\ \A j \in DOMAIN e : Len(e[j]) = x.c \/ (j = Len(e) /\ Len(e[j]) \in 1..x.c)
    [] k = "split" -> /\ \E m \in 0..x.n : Cat(e) = Ival(1, m)
                      /\ (\A j \in DOMAIN x.sizes : x.sizes[j] >= 0) => Len(e) = Len(x.sizes)
                      /\ (\E j \in DOMAIN x.sizes : x.sizes[j] < 0) => Cat(e) = Ival(1, x.n)
    [] k = "pad" -> \A r \in DOMAIN x.lens : SubSeq(e[r], 1, x.lens[r]) = Ival(1, x.lens[r])
    [] k = "padmask" -> \A r \in DOMAIN x.lens : Sum(e[r]) = Width(x.lens, x.dim) - x.lens[r]
    [] k = "missing" -> /\ Len(e) = x.n
                        /\ \A i, j \in DOMAIN e : i < j => e[i] < e[j]
                        /\ \A i \in DOMAIN e : e[i] \notin Set(x.s) /\ 
                                \A v \in 0..e[i] : v \in Set(x.s) \/ v \in Set(e)
    [] k = "windows" -> \A j \in DOMAIN e : Len(e[j]) = x.c
    [] k = "scale" -> LET w == SMax(Set(x.s)) - SMin(Set(x.s)) IN
         /\ \A i \in DOMAIN x.s : /\ e[i] >= Min2(x.lo, x.hi) * w
                                   /\ \A j \in DOMAIN x.s : (e[i] - e[j]) = (x.s[i] - x.s[j]) * (x.hi - x.lo)
         /\ {x.lo * w, x.hi * w} \subseteq Set(e)
    [] k = "hms" -> /\ e[1] * 86400 + e[2] * 3600 + e[3] * 60 + e[4] = x.n
                    /\ e[2] \in 0..23 /\ e[3] \in 0..59 /\ e[4] \in 0..59
    [] k = "mean" -> TRUE
=============================================================================
