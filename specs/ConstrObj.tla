----------------------------- MODULE ConstrObj ------------------------------
(* A constraint object under a history of operations. The state is the      *)
(* current constraint c and its meaning mean; an operation either keeps the *)
(* meaning (normalising, inverting, converting ...) or changes it in the    *)
(* stated way (adding, removing, changing the bound).                       *)
EXTENDS Constr
CoBlank == [nv |-> 0]
Ok(st) == [ok |-> TRUE, st |-> st, why |-> ""]
Bad(st, why) == [ok |-> FALSE, st |-> st, why |-> why]
All(st) == DOMAIN st.masks

\* what the constructor call says
Given(ev) == CASE ev.how \in {"cl", "clslice", "clcow", "cardcl", "pbcl"} -> ClauseOf(ev.l)
               [] ev.how \in {"cardunit", "pbunit"} -> ClauseOf(<<ev.l[1]>>)
               [] ev.how \in {"card", "pbcard"} -> [k |-> "card", op |-> ev.op, l |-> ev.l, w |-> [i \in DOMAIN ev.l |-> 1], b |-> ev.b]
               [] OTHER -> [k |-> "pb", op |-> ev.op, l |-> ev.l, w |-> ev.w, b |-> ev.b]
Completions(masks, pa) == {m \in DOMAIN masks : \A v \in DOMAIN pa : pa[v] = 2 \/ masks[m][v] = pa[v]}
StepNew(ev) ==
    LET st == [nv |-> ev.nv, masks |-> ev.masks, pas |-> ev.pas, c |-> Given(ev), mean |-> Meaning(ev.masks, Given(ev)),
               comp |-> [p \in DOMAIN ev.pas |-> Completions(ev.masks, ev.pas[p])]] IN
    IF ev.r # "ok" THEN Bad(st, "constructor: " \o ev.r)
    ELSE IF Meaning(ev.masks, ev.got) # st.mean THEN Bad(st, "constructed constraint has another meaning")
    ELSE Ok([st EXCEPT !.c = ev.got])

Becomes(st, got, mean, why) ==
    IF Meaning(st.masks, got) # mean THEN Bad(st, why) ELSE Ok([st EXCEPT !.c = got, !.mean = mean])

EqualWeights(c) == \A i, j \in DOMAIN c.w : c.w[i] = c.w[j]
StepSame(st, ev) ==
    CASE ev.r = "ok" ->
            IF Meaning(st.masks, ev.got) # st.mean THEN Bad(st, ev.op \o " changed the meaning")
            ELSE IF ev.op = "pig" THEN Ok(st)
            ELSE IF ev.op = "show" THEN Ok(st)
            ELSE IF ev.op = "norm" /\ ev.got.k \in {"cl", "pb"} /\ Cardinality(Range(ev.got.l)) # Len(ev.got.l) THEN Bad(st, "normalized constraint has duplicates")
            ELSE IF ev.op \in {"norm", "sanitize"} /\ ev.got.k = "cl" /\ st.mean = All(st) THEN Bad(st, ev.op \o " kept a tautology")
            ELSE IF ev.op = "sanitize" /\ Cardinality(Range(ev.got.l)) # Len(ev.got.l) THEN Bad(st, "sanitized clause has duplicates")
            ELSE Ok([st EXCEPT !.c = ev.got])
      [] ev.r = "taut" -> IF st.mean = All(st) THEN Ok(st) ELSE Bad(st, ev.op \o " reported a tautology")
      [] ev.r = "unsat" -> IF st.mean = {} THEN Ok(st) ELSE Bad(st, ev.op \o " reported unsatisfiable")
      [] ev.r = "nocard" -> IF EqualWeights(st.c) /\ Len(st.c.l) > 0 THEN Bad(st, "cardinality constraint not recognised") ELSE Ok(st)
      [] ev.r = "noclause" -> Ok(st)
      [] OTHER -> Bad(st, ev.op \o ": " \o ev.r)

StepSplit(st, ev) ==
    IF ev.lb.op # "lb" \/ ev.ub.op # "ub" THEN Bad(st, "split has the wrong parts")
    ELSE IF Meaning(st.masks, ev.lb) \cap Meaning(st.masks, ev.ub) # st.mean THEN Bad(st, "split changed the meaning")
    ELSE Ok(st)
\* added terms count towards the sum
StepAdd(st, ev) ==
    Becomes(st, ev.got, Meaning(st.masks, [st.c EXCEPT !.l = @ \o ev.l, !.w = @ \o ev.w]), "adding terms: wrong meaning")
StepBound(st, ev) == Becomes(st, ev.got, Meaning(st.masks, [st.c EXCEPT !.b = ev.b]), "set bound: wrong meaning")
StepMut(st, ev) ==
    LET c == IF ev.i \in DOMAIN st.c.l THEN [st.c EXCEPT !.l[ev.i] = -@] ELSE st.c IN
    Becomes(st, ev.got, Meaning(st.masks, c), "mutable iteration: wrong meaning")
StepRemove(st, ev) ==
    LET n == CountIn(st.c.l, ev.lit) IN
    IF ev.found # (n > 0) THEN Bad(st, "removal reports the wrong result")
    ELSE IF \E x \in Range(st.c.l) \cup Range(ev.got.l) :
              CountIn(ev.got.l, x) # (IF x # ev.lit \/ n = 0 THEN CountIn(st.c.l, x) ELSE IF ev.all THEN 0 ELSE n - 1)
         THEN Bad(st, "removal leaves the wrong literals")
    ELSE Ok([st EXCEPT !.c = ev.got, !.mean = Meaning(st.masks, ev.got)])
StepTerms(st, ev) ==
    IF Meaning(st.masks, [st.c EXCEPT !.l = ev.l, !.w = ev.w]) # st.mean THEN Bad(st, "terms of the constraint differ") ELSE Ok(st)

AllTrue(st) == {m \in All(st) : \A i \in DOMAIN st.c.l : LitTrue(st.masks[m], st.c.l[i])}
AllFalse(st) == {m \in All(st) : \A i \in DOMAIN st.c.l : ~LitTrue(st.masks[m], st.c.l[i])}
\* a clause over the literals as the constraint orders them
AsClause(st) == {m \in All(st) : \E i \in DOMAIN st.c.l : LitTrue(st.masks[m], IF st.c.op = "ub" THEN -st.c.l[i] ELSE st.c.l[i])}
\* the classification is decided by the numbers only if no literal occurs twice
Clean(c) == c.op # "eq" /\ DistinctVars(c) /\ PosWeights(c) /\ Len(c.l) > 0
StepFlags(st, ev) ==
    LET c == st.c
        clean == Clean(c) /\ c.k # "cl" IN
    IF ev.taut /\ st.mean # All(st) THEN Bad(st, "wrongly a tautology")
    ELSE IF ev.unsat /\ st.mean # {} THEN Bad(st, "wrongly unsatisfiable")
    ELSE IF ev.pos /\ st.mean # AllTrue(st) THEN Bad(st, "wrongly a positive assignment")
    ELSE IF ev.neg /\ st.mean # AllFalse(st) THEN Bad(st, "wrongly a negative assignment")
    ELSE IF ev.cl /\ st.mean # AsClause(st) THEN Bad(st, "wrongly a clause")
    ELSE IF ev.card /\ c.k = "pb" /\ ~EqualWeights(c) THEN Bad(st, "wrongly a cardinality constraint")
    ELSE IF ~ev.card /\ Len(c.l) > 0 /\ EqualWeights(c) THEN Bad(st, "cardinality constraint not recognised")
    ELSE IF (clean \/ c.k = "cl") /\ st.mean = All(st) /\ ~ev.taut THEN Bad(st, "tautology not recognised")
    ELSE IF (clean \/ (c.op = "eq" /\ c.b > Total(c))) /\ st.mean = {} /\ ~ev.unsat THEN Bad(st, "unsatisfiable not recognised")
    ELSE IF clean /\ c.op = "lb" /\ st.mean = AllTrue(st) /\ ~ev.pos THEN Bad(st, "positive assignment not recognised")
    ELSE IF clean /\ c.op = "ub" /\ st.mean = AllFalse(st) /\ ~ev.neg THEN Bad(st, "negative assignment not recognised")
    ELSE IF clean /\ st.mean = AsClause(st) /\ ~ev.cl THEN Bad(st, "clause not recognised")
    ELSE IF ev.len # Len(c.l) \/ ev.empty # (Len(c.l) = 0) THEN Bad(st, "wrong number of literals")
    ELSE IF ev.wsum # Total(c) THEN Bad(st, "wrong weight sum")
    ELSE IF c.k # "cl" /\ ev.bound # c.b THEN Bad(st, "wrong bound")
    ELSE IF c.k = "cl" /\ (ev.unit # (Len(c.l) = 1) \/ ev.binary # (Len(c.l) = 2)) THEN Bad(st, "wrong unit or binary")
    ELSE Ok(st)

\* smallest and largest weight a partial assignment still permits, literal by literal
RECURSIVE Lo(_, _, _), Hi(_, _, _)
PTrue(pa, l) == IF l > 0 THEN pa[l] = 1 ELSE pa[-l] = 0
PFalse(pa, l) == IF l > 0 THEN pa[l] = 0 ELSE pa[-l] = 1
Lo(pa, c, i) == IF i = 0 THEN 0 ELSE (IF PTrue(pa, c.l[i]) THEN c.w[i] ELSE 0) + Lo(pa, c, i - 1)
Hi(pa, c, i) == IF i = 0 THEN 0 ELSE (IF PFalse(pa, c.l[i]) THEN 0 ELSE c.w[i]) + Hi(pa, c, i - 1)
Decided(pa, c) ==
    LET lo == Lo(pa, c, Len(c.l))
        hi == Hi(pa, c, Len(c.l)) IN
    CASE c.op = "ub" -> IF hi <= c.b THEN "T" ELSE IF lo > c.b THEN "F" ELSE "D"
      [] c.op = "lb" -> IF lo >= c.b THEN "T" ELSE IF hi < c.b THEN "F" ELSE "D"
      [] OTHER -> IF lo = hi THEN (IF lo = c.b THEN "T" ELSE "F") ELSE IF c.b < lo \/ c.b > hi THEN "F" ELSE "D"
StepEval(st, ev) ==
    IF \E p \in DOMAIN st.pas :
         \/ ev.vals[p] = "T" /\ ~(st.comp[p] \subseteq st.mean)
         \/ ev.vals[p] = "F" /\ st.comp[p] \cap st.mean # {}
    THEN Bad(st, "evaluation disagrees with a completion")
    ELSE IF \E p \in DOMAIN st.pas : ev.vals[p] = "D" /\ Decided(st.pas[p], st.c) # "D" THEN Bad(st, "decided value not reported")
    ELSE Ok(st)

\* documented refusals: the result type cannot express the constraint
StepPanic(st, ev) ==
    IF \/ ev.op.op = "extcard" /\ st.mean \in {{}, All(st)}
       \/ ev.op.op = "invert" /\ st.c.k = "card" /\ st.c.op = "lb" /\ st.c.b > Len(st.c.l)
    THEN Ok(st) ELSE Bad(st, "panic")
\* the operators build formulas: a tree of literals, disjunctions and conjunctions against the clauses it gave
RECURSIVE TreeMean(_, _)
TreeMean(masks, t) ==
    CASE t.t = "lit" -> {m \in DOMAIN masks : LitTrue(masks[m], t.x)}
      [] t.t = "not" -> DOMAIN masks \ TreeMean(masks, t.a)
      [] t.t = "or" -> TreeMean(masks, t.a) \cup TreeMean(masks, t.b)
      [] t.t = "inst" -> TreeMean(masks, t.a)
      [] OTHER -> TreeMean(masks, t.a) \cap TreeMean(masks, t.b)
StepExpr(st, ev) ==
    IF ev.r # "ok" THEN Bad(st, "operator: " \o ev.r)
    ELSE IF {m \in DOMAIN ev.masks : \A i \in DOMAIN ev.got : \E j \in DOMAIN ev.got[i] : LitTrue(ev.masks[m], ev.got[i][j])}
            # TreeMean(ev.masks, ev.tree) THEN Bad(st, "operators built another formula")
    ELSE Ok(st)
CoStep(st, ev) ==
    CASE ev.e = "new" -> StepNew(ev)
      [] ev.e = "same" -> StepSame(st, ev)
      [] ev.e = "split" -> StepSplit(st, ev)
      [] ev.e = "add" -> StepAdd(st, ev)
      [] ev.e = "bound" -> StepBound(st, ev)
      [] ev.e = "mut" -> StepMut(st, ev)
      [] ev.e = "remove" -> StepRemove(st, ev)
      [] ev.e = "terms" -> StepTerms(st, ev)
      [] ev.e = "flags" -> StepFlags(st, ev)
      [] ev.e = "eval" -> StepEval(st, ev)
      [] ev.e = "expr" -> StepExpr(st, ev)
      [] ev.e = "canon" -> IF ev.eq THEN Ok(st) ELSE Bad(st, "reordered constraints have different normal forms")
      [] ev.e = "panic" -> StepPanic(st, ev)
      [] OTHER -> Bad(st, ev.e)
=============================================================================
