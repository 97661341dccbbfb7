------------------------------ MODULE FitSlots ------------------------------
(* Layout of the vector of unknowns: one slot per group and fitted parameter,  *)
(* parameters in order of definition, groups in order of first appearance.     *)
EXTENDS GroupRules

RECURSIVE Off(_, _, _)
Off(ds, rules, p) == IF p = 1 THEN 0 ELSE Off(ds, rules, p - 1) + NGroups(ds, rules[p - 1], p - 1)
Slot(ds, rules, p, i) == Off(ds, rules, p) + GroupNo(ds, rules[p], p, i)
NSlots(ds, rules) == Off(ds, rules, Len(rules)) + NGroups(ds, rules[Len(rules)], Len(rules))
Slots(ds, rules, i) == {Slot(ds, rules, p, i) : p \in DOMAIN rules}
ParamOf(ds, rules, s) == CHOOSE p \in DOMAIN rules : s > Off(ds, rules, p) /\ s <= Off(ds, rules, p) + NGroups(ds, rules[p], p)
Members(ds, rules, s) == {i \in DOMAIN ds : s \in Slots(ds, rules, i)}
RECURSIVE SumOf(_, _)
SumOf(f, S) == IF S = {} THEN 0 ELSE LET x == CHOOSE x \in S : TRUE IN f[x] + SumOf(f, S \ {x})
=============================================================================
