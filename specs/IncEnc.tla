------------------------------- MODULE IncEnc -------------------------------
(* Incremental cardinality / pseudo-Boolean encodings as a state machine.   *)
(*                                                                          *)
(* The abstract state of an encoding object plus its clause collector:      *)
(*   masks    the assignments of the user variables under observation       *)
(*   inputs   the weighted input literals, as a sequence (a multiset)       *)
(*   sums     weight of the true inputs under each mask                     *)
(*   total    the weight of all inputs                                      *)
(*   encU/L   bound intervals that must be enforceable now                  *)
(*   allowed  masks that the hardened bounds still permit                   *)
(*   care     masks whose behaviour is still determined (limit_range frees  *)
(*            the others)                                                   *)
(*   owned    variables handed out by the variable manager                  *)
(*   ncl      clauses emitted so far, prec the precision divisor            *)
EXTENDS Integers, Sequences, FiniteSets, Big

UbOnly == {"gte", "refgte", "cellgte", "dpw"}
LbOnly == {"invgte"}
Adders == {"adder", "invadder", "dbladder"}
IncBlank == [ty |-> "none"]

LitTrue(mask, lit) == IF lit > 0 THEN mask[lit] = 1 ELSE mask[-lit] = 0
Range(s) == {s[i] : i \in DOMAIN s}

\* w at precision p (p = 1 for everything but the watchdog encoding)
AtPrec(w, p) == IF p <= 1 THEN w ELSE <<0, w[2] \div p>>
RECURSIVE SumUnder(_, _, _, _)
SumUnder(mask, inputs, p, i) ==
    IF i = 0 THEN B0
    ELSE IF LitTrue(mask, inputs[i][1])
         THEN BAdd(SumUnder(mask, inputs, p, i - 1), AtPrec(inputs[i][2], p))
         ELSE SumUnder(mask, inputs, p, i - 1)
Sums(masks, inputs, p) == [m \in DOMAIN masks |-> SumUnder(masks[m], inputs, p, Len(inputs))]
RECURSIVE Total(_, _, _)
Total(inputs, p, i) == IF i = 0 THEN B0 ELSE BAdd(Total(inputs, p, i - 1), AtPrec(inputs[i][2], p))
Zip(ls, ws) == [i \in DOMAIN ls |-> <<ls[i], ws[i]>>]
\* the watchdog encoding divides the merged weight of a literal
RECURSIVE AddAll(_, _, _)
AddAll(inputs, new, i) ==
    IF i > Len(new) THEN inputs
    ELSE IF \E j \in DOMAIN inputs : inputs[j][1] = new[i][1]
         THEN AddAll([j \in DOMAIN inputs |-> IF inputs[j][1] = new[i][1]
                         THEN <<inputs[j][1], BAdd(inputs[j][2], new[i][2])>> ELSE inputs[j]], new, i + 1)
         ELSE AddAll(Append(inputs, new[i]), new, i + 1)
Inputs(ty, old, new) == IF ty = "dpw" THEN AddAll(old, new, 1) ELSE old \o new

WithInputs(st, inputs) ==
    [st EXCEPT !.inputs = inputs,
               !.sums = Sums(st.masks, inputs, st.prec),
               !.total = Total(inputs, st.prec, Len(inputs)),
               !.rsv = FALSE, !.encU = {}, !.encL = {}, !.treeU = B0, !.treeL = B0,
               !.cmpU = IF Total(inputs, st.prec, Len(inputs)) = st.total THEN @ ELSE {}, !.sureL = {}]

NewSt(ev) ==
    LET ins == Inputs(ev.ty, <<>>, Zip(ev.lits, ev.w)) IN
    [ty |-> ev.ty, masks |-> ev.masks, inputs |-> ins,
     sums |-> Sums(ev.masks, ins, 1), total |-> Total(ins, 1, Len(ins)),
     encU |-> {}, encL |-> {}, allowed |-> DOMAIN ev.masks, care |-> DOMAIN ev.masks,
     owned |-> {}, ncl |-> 0, prec |-> 1, built |-> FALSE, stale |-> {}, lim |-> <<>>,
     treeU |-> B0, treeL |-> B0, cmpU |-> {}, sureL |-> {}, rsv |-> FALSE,
     bprec |-> 0, oom |-> FALSE, dv |-> 0]

KindSet(k) == IF k = "both" THEN {"ub", "lb"} ELSE {k}
\* effective half-open interval of a range argument
Lo(a) == IF a.t = "u" THEN B0 ELSE IF a.t = "i" THEN a.v ELSE BAdd(a.v, <<0, 1>>)
Hi(b) == IF b.t = "u" THEN BInf ELSE IF b.t = "i" THEN BAdd(b.v, <<0, 1>>) ELSE b.v
Within(iv, b) == BLe(iv[1], b) /\ BLt(b, iv[2])
Enforceable(ivs, b) == \E iv \in ivs : Within(iv, b)

Ok(st) == [ok |-> TRUE, st |-> st, why |-> ""]
Bad(st, why) == [ok |-> FALSE, st |-> st, why |-> why]

-----------------------------------------------------------------------------
RawTotal(inputs) == Total(inputs, 1, Len(inputs))

StepNew(ev) ==
    LET s == NewSt(ev) IN
    IF ev.r # "ok" THEN Bad(s, "construction panicked")
    ELSE IF ev.sum # RawTotal(s.inputs) THEN Bad(s, "reported total differs from inputs")
    ELSE Ok(s)

StepExtend(st, ev) ==
    LET s == WithInputs(st, Inputs(st.ty, st.inputs, Zip(ev.lits, ev.w))) IN
    IF ev.r # "ok" THEN Bad(st, "extend panicked")
    ELSE IF ev.sum # RawTotal(s.inputs) THEN Bad(st, "reported total differs from inputs")
    ELSE Ok(s)

\* variables used and statistics after any emitting call
Owned1(st, ev) == st.owned \cup Range(ev.new)
EmitOk(st, ev) ==
    /\ Range(ev.aux) \subseteq Owned1(st, ev)
    /\ Range(ev.new) \cap st.owned = {}
StatsOk(st, ev) ==
    ev.hasst => /\ ev.stcl = st.ncl + ev.ncl
                /\ ev.stv = Cardinality(Owned1(st, ev)) - st.dv

\* The lazily growing (generalised totalizer) encodings leave inputs heavier than every
\* bound asked for so far out of their tree; a call that pulls such inputs in rebuilds the
\* root, and only the range of that call is then sure to be enforceable.
RECURSIVE Merged(_, _, _)
Merged(ins, lit, i) == IF i = 0 THEN B0
    ELSE IF ins[i][1] = lit THEN BAdd(Merged(ins, lit, i - 1), ins[i][2]) ELSE Merged(ins, lit, i - 1)
Growing == {"gte", "invgte", "dblgte"}
Regrows(st, old, new) == st.ty \in Growing /\ \E i \in DOMAIN st.inputs :
    BLt(old, Merged(st.inputs, st.inputs[i][1], Len(st.inputs))) /\ BLe(st.inputs[i][2], new)
TreeU(st, iv) == LET e == BMin(iv[2], st.total) IN
    IF BLt(iv[1], e) THEN BSub(e, <<0, 1>>) ELSE B0
TreeL(st, iv) == LET lo == IF iv[1] = B0 THEN <<0, 1>> ELSE iv[1]
                     e == BMin(iv[2], BAdd(st.total, <<0, 1>>)) IN
    IF BLt(lo, e) THEN BSub(st.total, lo) ELSE B0
\* Running out of memory: what the call was to encode and what it encoded before is not sure to
\* be enforceable until the next successful call, the counts may miss what was emitted
OutOfMem(st, s, ev, ubk, lbk) ==
    [s EXCEPT !.encU = IF ubk THEN {} ELSE @, !.encL = IF lbk THEN {} ELSE @, !.stale = st.stale,
              !.sureL = {}, !.cmpU = @ \cup st.cmpU, !.rsv = FALSE, !.oom = TRUE,
              !.ncl = IF ev.hasst THEN ev.stcl ELSE @,
              !.dv = IF ev.hasst THEN Cardinality(Owned1(st, ev)) - ev.stv ELSE @]
StepEncode(st, ev) ==    LET iv == <<Lo(ev.a), Hi(ev.b)>>
        ubk == ev.k \in {"ub", "both"}
        lbk == ev.k \in {"lb", "both"}
        keepU == ev.chg /\ ~Regrows(st, st.treeU, TreeU(st, iv))
        keepL == ev.chg /\ ~Regrows(st, st.treeL, TreeL(st, iv))
        builds == Len(st.inputs) >= 2 /\ BLt(B0, st.total) /\ BLt(iv[1], BMin(iv[2], RawTotal(st.inputs)))
        s == [st EXCEPT !.owned = Owned1(st, ev), !.ncl = @ + ev.ncl,
                !.encU = IF ubk THEN (IF keepU THEN @ \cup {iv} ELSE {iv}) ELSE @,
                !.encL = IF lbk THEN (IF keepL THEN @ \cup {iv} ELSE {iv}) ELSE @,
                !.treeU = IF ubk THEN BMax(@, TreeU(st, iv)) ELSE @,
                !.treeL = IF lbk THEN BMax(@, TreeL(st, iv)) ELSE @,
                !.sureL = IF (ubk /\ st.ty = "invadder") \/ (lbk /\ st.ty = "adder")
                          THEN (IF ev.chg THEN @ ELSE {}) \cup {<<iv, st.cmpU>>} ELSE @,
                !.cmpU = IF (lbk /\ st.ty = "invadder") \/ (ubk /\ st.ty = "adder")
                         THEN (IF ev.chg THEN @ ELSE {}) \cup {iv} ELSE @,
                !.stale = IF ev.chg THEN @ ELSE @ \ KindSet(ev.k),
                !.built = @ \/ builds, !.bprec = IF builds THEN st.prec ELSE @]
    IN IF ev.r = "oom" /\ ev.cap THEN
            IF ~EmitOk(st, ev) THEN Bad(st, "clauses over variables that were not allocated")
            ELSE Ok(OutOfMem(st, s, ev, ubk, lbk))
       ELSE IF ev.r # "ok" THEN Bad(st, "encode: " \o ev.r)
       ELSE IF ~EmitOk(st, ev) THEN Bad(st, "clauses over variables that were not allocated")
       ELSE IF ~StatsOk(st, ev) THEN Bad(st, "clause or variable count is not what was emitted")
       ELSE IF st.rsv /\ Range(ev.new) # {} THEN Bad(st,
            IF st.ty \in Adders THEN "comparator variables of a binary adder are not reserved"
            ELSE IF st.ty = "dpw" /\ st.bprec > st.prec THEN "variables for a higher precision of a watchdog encoding are not reserved"
            ELSE "new variables although all were reserved")
       ELSE Ok(s)

StepReserve(st, ev) ==
    LET s == [st EXCEPT !.owned = Owned1(st, ev), !.ncl = @ + ev.ncl, !.rsv = TRUE,
                        !.encU = IF Regrows(st, st.treeU, BInf) THEN {} ELSE @,
                        !.encL = IF Regrows(st, st.treeL, BInf) THEN {} ELSE @,
                        !.treeU = BInf, !.treeL = BInf,
                        !.bprec = IF @ = 0 /\ Len(st.inputs) >= 2 /\ BLt(B0, st.total) THEN st.prec ELSE @,
                        !.built = @ \/ (Len(st.inputs) >= 2 /\ BLt(B0, st.total))] IN
    IF ev.r # "ok" THEN Bad(st, "reserve: " \o ev.r)
    ELSE IF ~StatsOk(st, ev) THEN Bad(st, "counts after reserve")
    ELSE Ok(s)

\* the emitted clauses alone admit exactly the masks the hardened bounds admit
StepFree(st, ev) ==
    IF \A m \in st.care : (ev.sat[m] = 1) <=> (m \in st.allowed) THEN Ok(st)
    ELSE Bad(st, "clauses restrict the inputs")

Holds(st, k, b, m) ==
    /\ k \in {"ub", "both"} => BLe(st.sums[m], b)
    /\ k \in {"lb", "both"} => BLe(b, st.sums[m])
TrivialUb(st, b) == BLe(st.total, b)
UnreachableLb(st, k, b) == k \in {"lb", "both"} /\ BLt(st.total, b)
MustEnforce(st, k, b) ==
    /\ k \in {"ub", "both"} => TrivialUb(st, b) \/ Enforceable(st.encU, b)
    /\ k \in {"lb", "both"} => b = B0 \/ Enforceable(st.encL, b)
SemOk(st, ev) == \A m \in st.care :
    (ev.sat[m] = 1) <=> (m \in st.allowed /\ Holds(st, ev.k, ev.b, m))

\* after limit_range, only bounds within the limited range are meaningful
RECURSIVE BMul(_, _)
BMul(b, p) == IF p <= 1 THEN b ELSE BAdd(BMul(b, p \div 2), BMul(b, p \div 2))
InLim(st, b) == \A i \in DOMAIN st.lim :
    BLe(st.lim[i][1], BMul(b, st.prec)) /\ BLe(BMul(BAdd(b, <<0, 1>>), st.prec), st.lim[i][2])
OutOfContract(st, ev) == /\ ev.r \in {"ok", "notenc", "unsat"}
                         /\ \/ KindSet(ev.k) \cap st.stale # {}
                            \/ ~InLim(st, ev.b)
\* A lower bound of the binary adder is skipped if its comparator was encoded for upper
\* bounding before (known finding: repairing it changes the pinned output of the C-API test)
AdderSkipped(st, ev) ==
    IF st.ty = "adder" THEN
        /\ ev.k \in {"lb", "both"} /\ ev.b # B0
        /\ ev.k = "both" => TrivialUb(st, ev.b) \/ Enforceable(st.encU, ev.b)
        /\ ~ \E x \in st.sureL : Within(x[1], ev.b) /\ ~Enforceable(x[2], BSub(ev.b, <<0, 1>>))
    ELSE IF st.ty = "invadder" THEN \* mirrored by the inversion
        /\ ev.k \in {"ub", "both"} /\ BLt(ev.b, st.total)
        /\ ev.k = "both" => ev.b = B0 \/ Enforceable(st.encL, ev.b)
        /\ ~ \E x \in st.sureL : Within(x[1], ev.b) /\ ~Enforceable(x[2], BAdd(ev.b, <<0, 1>>))
    ELSE FALSE
JudgeEnforce(st, ev) ==
    IF OutOfContract(st, ev) THEN "" ELSE
    IF UnreachableLb(st, ev.k, ev.b)
    THEN IF ev.r = "unsat" THEN "" ELSE "unreachable lower bound not reported unsatisfiable: " \o ev.r
    ELSE IF ev.r = "ok"
         THEN IF ~(Range(ev.aux) \subseteq st.owned) THEN "assumption over a variable that was not allocated"
              ELSE IF SemOk(st, ev) THEN "" ELSE "enforced bound has the wrong meaning"
         ELSE IF ev.r = "notenc"
              THEN IF ~MustEnforce(st, ev.k, ev.b) THEN ""
                   ELSE IF AdderSkipped(st, ev) THEN "lower bound of a binary adder skipped because its comparator was encoded for upper bounds"
                   ELSE "encoded bound cannot be enforced"
              ELSE "enforce: " \o ev.r
StepEnforce(st, ev) ==
    LET why == JudgeEnforce(st, ev) IN IF why = "" THEN Ok(st) ELSE Bad(st, why)
StepHarden(st, ev) ==
    LET why == JudgeEnforce(st, ev) IN
    IF why # "" THEN Bad(st, why)
    ELSE IF OutOfContract(st, ev) /\ ev.r = "ok" THEN Ok([st EXCEPT !.care = {}])
    ELSE IF ev.r = "ok" THEN Ok([st EXCEPT !.allowed = {m \in @ : Holds(st, ev.k, ev.b, m)}])
    ELSE Ok(st)

StepUserVars(st, ev) ==
    IF Range(ev.vars) \cap st.owned # {} THEN Bad(st, "variable handed out twice") ELSE Ok(st)
\* a new clause collector: nothing is enforceable until it has been re-encoded
\* with a non-change encode; enforcing a kind that has not been re-encoded is outside the contract
StepFresh(st, ev) == Ok([st EXCEPT !.encU = {}, !.encL = {}, !.allowed = DOMAIN st.masks, !.stale = {"ub", "lb"}, !.lim = <<>>])
StepCheckpoint(st, ev) == IF ev.r = "ok" THEN Ok(st) ELSE Bad(st, "checkpoint: " \o ev.r)

\* offered bounds: nothing attainable is skipped
StepNext(st, ev) ==
    LET at == {st.sums[m] : m \in DOMAIN st.sums} IN
    IF ev.r # "ok" THEN Bad(st, "next value: " \o ev.r)
    ELSE IF ev.has /\ ~BLt(ev.v, ev.hi) THEN Bad(st, "next_higher is not higher")
    ELSE IF ev.has /\ (\E x \in at : BLt(ev.v, x) /\ BLt(x, ev.hi)) THEN Bad(st, "next_higher skips an attainable value")
    ELSE IF ev.has /\ ev.v # B0 /\ ~BLt(ev.lo, ev.v) THEN Bad(st, "next_lower is not lower")
    ELSE IF ev.has /\ (\E x \in at : BLt(ev.lo, x) /\ BLt(x, ev.v)) THEN Bad(st, "next_lower skips an attainable value")
    ELSE IF ~BLe(ev.cu, ev.v) THEN Bad(st, "coarse_ub is not stricter")
    ELSE IF ~BLe(ev.v, ev.cl) THEN Bad(st, "coarse_lb is not stricter")
    ELSE Ok(st)

\* dynamic polynomial watchdog: precision
RECURSIVE Pow2(_)
Pow2(d) == IF d <= 1 THEN TRUE ELSE d % 2 = 0 /\ Pow2(d \div 2)
StepPrec(st, ev) ==
    LET want == IF ~Pow2(ev.d) THEN "notpow2"
                ELSE IF st.built /\ ev.d > st.prec THEN "decreased" ELSE "ok"
        p == IF ev.d <= 1 THEN 1 ELSE ev.d
        s == [st EXCEPT !.prec = p, !.encU = {}, !.rsv = FALSE,
                !.sums = Sums(st.masks, st.inputs, p), !.total = Total(st.inputs, p, Len(st.inputs))] IN
    IF ev.r # want /\ ~(st.oom /\ ev.r = "decreased" /\ want = "ok") THEN Bad(st, "set_precision: " \o ev.r)
    ELSE IF ev.r = "ok" THEN Ok(s) ELSE Ok(st)
StepNextPrec(st, ev) ==
    IF ev.r # "ok" THEN Bad(st, "next_precision: " \o ev.r)
    ELSE IF ~Pow2(ev.n) \/ ev.n < 1 THEN Bad(st, "next_precision is not a power of two")
    ELSE IF st.oom \/ \E i \in DOMAIN st.inputs : st.inputs[i][2][1] # 0 THEN Ok(st)
    ELSE \* what the last encoded precision leaves of the weights
        LET rest == {IF st.bprec > 0 THEN st.inputs[i][2][2] % st.bprec ELSE st.inputs[i][2][2] : i \in DOMAIN st.inputs} \ {0}
            m == IF rest = {} THEN 1 ELSE CHOOSE x \in rest : \A y \in rest : y <= x IN
        IF ~(ev.n <= m /\ m < 2 * ev.n) THEN Bad(st, "next_precision is not the next segment")
        ELSE IF ev.max # (rest = {}) THEN Bad(st, "maximum precision wrongly reported")
        ELSE Ok(st)
\* reported inputs, and strict extensions of input assignments satisfy all clauses
StepObs(st, ev) ==
    LET lits == {st.inputs[i][1] : i \in DOMAIN st.inputs}
        got == {ev.ins[i][1] : i \in DOMAIN ev.ins} IN
    IF ev.r # "ok" THEN Bad(st, "obs: " \o ev.r)
    ELSE IF ev.has /\ (Cardinality(got) # Len(ev.ins) \/ ~(got \subseteq lits)
            \/ (\E x \in lits : LET w == Merged(st.inputs, x, Len(st.inputs)) IN
                  IF x \in got THEN (\E i \in DOMAIN ev.ins : ev.ins[i][1] = x /\ ev.ins[i][2] # w) ELSE w # B0))
         THEN Bad(st, "obs: wrong inputs")
    ELSE IF ev.ext # <<>> /\ (\E m \in st.allowed \cap st.care : ev.ext[m] = 0) THEN Bad(st, "obs: strict extension violates a clause")
    ELSE Ok(st)
\* limit_range may only remove masks outside the range
StepLimit(st, ev) ==
    LET iv == <<Lo(ev.a), Hi(ev.b)>>
        raw == Sums(st.masks, st.inputs, 1)
        in == {m \in DOMAIN st.masks : Within(iv, raw[m])} IN
    IF ev.r # "ok" THEN Bad(st, "limit_range: " \o ev.r)
    ELSE IF ~(Range(ev.aux) \subseteq st.owned) THEN Bad(st, "clauses over variables that were not allocated")
    ELSE IF \E m \in st.care \cap in : (ev.sat[m] = 1) # (m \in st.allowed)
         THEN Bad(st, "limit_range removed an assignment inside the range")
    ELSE Ok([st EXCEPT !.care = @ \cap in, !.lim = Append(@, iv)])

IncStep(st, ev) ==
    CASE ev.e = "new" -> StepNew(ev)
      [] ev.e = "extend" -> StepExtend(st, ev)
      [] ev.e = "encode" -> StepEncode(st, ev)
      [] ev.e = "reserve" -> StepReserve(st, ev)
      [] ev.e = "obs" -> StepObs(st, ev)
      [] ev.e = "free" -> StepFree(st, ev)
      [] ev.e = "enforce" -> StepEnforce(st, ev)
      [] ev.e = "harden" -> StepHarden(st, ev)
      [] ev.e = "uservars" -> StepUserVars(st, ev)
      [] ev.e = "fresh" -> StepFresh(st, ev)
      [] ev.e = "checkpoint" -> StepCheckpoint(st, ev)
      [] ev.e = "next" -> StepNext(st, ev)
      [] ev.e = "prec" -> StepPrec(st, ev)
      [] ev.e = "nextprec" -> StepNextPrec(st, ev)
      [] ev.e = "limit" -> StepLimit(st, ev)
      [] OTHER -> Bad(st, "event outside the specification")
=============================================================================
