------------------------------- MODULE Constr -------------------------------
(* Constraints as data with a meaning: a constraint is a weighted sum of    *)
(* literals compared with a bound; its meaning is the set of assignments    *)
(* (indices into masks) under which the comparison holds. A clause is the   *)
(* constraint "at least one".                                               *)
EXTENDS Integers, Sequences, FiniteSets
Range(s) == {s[i] : i \in DOMAIN s}
LitTrue(mask, lit) == IF lit > 0 THEN mask[lit] = 1 ELSE mask[-lit] = 0
RECURSIVE WSumTo(_, _, _, _)
WSumTo(mask, ls, ws, i) ==
    IF i = 0 THEN 0 ELSE (IF LitTrue(mask, ls[i]) THEN ws[i] ELSE 0) + WSumTo(mask, ls, ws, i - 1)
WSum(mask, c) == WSumTo(mask, c.l, c.w, Len(c.l))
Cmp(op, s, b) == CASE op = "ub" -> s <= b [] op = "lb" -> s >= b [] op = "eq" -> s = b
Holds(mask, c) == Cmp(c.op, WSum(mask, c), c.b)
Meaning(masks, c) == {m \in DOMAIN masks : Holds(masks[m], c)}
ClauseOf(ls) == [k |-> "cl", op |-> "lb", l |-> ls, w |-> [i \in DOMAIN ls |-> 1], b |-> 1]
RECURSIVE SeqSum(_, _)
SeqSum(w, i) == IF i = 0 THEN 0 ELSE w[i] + SeqSum(w, i - 1)
Total(c) == SeqSum(c.w, Len(c.w))
DistinctVars(c) == \A i, j \in DOMAIN c.l : i # j => c.l[i] # c.l[j] /\ c.l[i] # -c.l[j]
PosWeights(c) == \A i \in DOMAIN c.w : c.w[i] > 0
CountIn(s, x) == Cardinality({i \in DOMAIN s : s[i] = x})
=============================================================================
