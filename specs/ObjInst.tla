------------------------------ MODULE ObjInst ------------------------------
(* Objectives and optimization instances. An objective is a map from soft   *)
(* clauses (sequences of literals; a soft literal l is the clause <<-l>>)   *)
(* to positive weights plus an offset; its value under an assignment is     *)
(* the offset plus the weights of the falsified clauses. A slot holds the   *)
(* models of the hard constraints and its objectives.                       *)
EXTENDS Constr, TLC
FS == INSTANCE FiniteSetsExt
OiBlank == [masks |-> <<>>, s |-> <<>>]
Ok(st) == [ok |-> TRUE, st |-> st, why |-> ""]
Bad(st, why) == [ok |-> FALSE, st |-> st, why |-> why]
None == [c \in {} |-> 0]
O0 == [m |-> None, off |-> 0]
Weight(o, c) == IF c \in DOMAIN o.m THEN o.m[c] ELSE 0
Restrict(f, D) == [x \in D |-> f[x]]
SetW(o, c, w) ==
    IF c = <<>> THEN [o EXCEPT !.off = @ + w]
    ELSE [o EXCEPT !.m = IF w = 0 THEN Restrict(@, DOMAIN @ \ {c}) ELSE (c :> w) @@ @]
Incr(o, c, w) ==
    IF c = <<>> THEN [o EXCEPT !.off = @ + w]
    ELSE IF w = 0 THEN o ELSE [o EXCEPT !.m = (c :> (w + Weight(o, c))) @@ @]
\* a literal with a weight of either sign: w*l = w + (-w)*(1-l)
IncrInt(o, l, w) == IF w >= 0 THEN Incr(o, <<-l>>, w) ELSE [Incr(o, <<l>>, -w) EXCEPT !.off = @ + w]
\* under a partial assignment only surely falsified clauses cost
LitFalse(p, x) == IF x > 0 THEN p[x] = 0 ELSE p[-x] = 1
Cost0(p, o) == FS!MapThenSumSet(LAMBDA c : IF \A i \in DOMAIN c : LitFalse(p, c[i]) THEN o.m[c] ELSE 0, DOMAIN o.m)
Cost(p, o) == Cost0(p, o) + o.off
Sum(o, D) == FS!MapThenSumSet(LAMBDA c : o.m[c], D)
Agg(items) == [c \in {items[i].c : i \in DOMAIN items} |->
                FS!MapThenSumSet(LAMBDA i : items[i].w, {i \in DOMAIN items : items[i].c = c})]
ObjOf(d) == [m |-> Agg(d.items), off |-> d.off]
Same(o, d) == ObjOf(d) = o
VarOf(x) == IF x > 0 THEN x ELSE -x
Top(S) == IF S = {} THEN 0 ELSE CHOOSE x \in S : \A y \in S : y <= x
All(st) == DOMAIN st.masks
MeaningAll(masks, cs) == {m \in DOMAIN masks : \A i \in DOMAIN cs : Holds(masks[m], cs[i])}
SatSet(st, ev) == {m \in All(st) : ev.sat[m] = 1}
\* the instance as reported is the expected one
Inst(st, i, ev) ==
    LET s == st.s[i] d == ev.d IN
    IF SatSet(st, d) # s.mods THEN Bad(st, ev.e \o ": models changed")
    ELSE IF d.n # Len(s.o) \/ Len(d.objs) # Len(s.o) THEN Bad(st, ev.e \o ": wrong number of objectives")
    ELSE IF \E k \in DOMAIN s.o : ~Same(s.o[k], d.objs[k]) THEN Bad(st, ev.e \o ": wrong objective")
    ELSE IF d.top > d.used THEN Bad(st, ev.e \o ": variables in constraints are not marked used")
    ELSE IF Range(d.vs) # Range(d.vars) THEN Bad(st, ev.e \o ": wrong variable set")
    ELSE Ok(st)
Obj(st, ev, o) == Inst([st EXCEPT !.s[ev.i].o[ev.k] = o], ev.i, ev)
\* an operation that keeps the value under all assignments but not the clauses
Renorm(st, ev) ==
    LET o == st.s[ev.i].o[ev.k] n == ObjOf(ev.d.objs[ev.k]) IN
    IF \E x \in DOMAIN n.m : n.m[x] <= 0 \/ (\E i \in DOMAIN x : VarOf(x[i]) \notin DOMAIN st.masks[1])
        THEN Bad(st, ev.e \o ": malformed objective")
    ELSE IF \E m \in All(st) : Cost(st.masks[m], n) # Cost(st.masks[m], o) THEN Bad(st, ev.e \o ": costs changed")
    ELSE Obj(st, ev, n)
RECURSIVE Build(_, _, _, _, _)
Build(o, softs, k, how, i) ==
    IF i > Len(softs) THEN o
    ELSE Build(IF softs[i].k # k - 1 THEN o
               ELSE IF how = "ilit" THEN IncrInt(o, -softs[i].c[1], softs[i].w)
               ELSE Incr(o, softs[i].c, softs[i].w), softs, k, how, i + 1)
\* max f = min of -f
Negated(o, off) == [m |-> [c \in {<<-x[1]>> : x \in DOMAIN o.m} |-> o.m[<<-c[1]>>]], off |-> -off - Sum(o, DOMAIN o.m)]
StepMake(st, ev) ==
    LET base(k) == Build(O0, ev.softs, k, IF ev.e = "compose" THEN ev.how ELSE "", 1)
        obj(k) == IF ev.e = "make" THEN O0
                  ELSE IF ev.e = "data" THEN (IF ev.max[k] THEN Negated(base(k), ev.off[k]) ELSE [base(k) EXCEPT !.off = ev.off[k]])
                  ELSE base(k)
        s == [mods |-> IF ev.e = "make" THEN All(st) ELSE MeaningAll(st.masks, ev.cs), o |-> [k \in 1..ev.n |-> obj(k)]] IN
    IF ev.e \in {"compose", "lines", "data"} /\ Top(Range(ev.d.vars)) > ev.d.used
        THEN Bad(st, ev.e \o ": variables are not marked used")
    ELSE Inst([st EXCEPT !.s = Append(@, s)], ev.i, ev)
OldOk(o, c, old) == IF Weight(o, c) = 0 THEN old = -1 ELSE old = Weight(o, c)
StepSet(st, ev, c) ==
    LET o == st.s[ev.i].o[ev.k] IN
    IF c # <<>> /\ ~OldOk(o, c, ev.old) THEN Bad(st, ev.e \o ": wrong old weight") ELSE Obj(st, ev, SetW(o, c, ev.w))
Units(o) == {c \in DOMAIN o.m : Len(c) = 1}
MaxW(o, D) == Top({o.m[c] : c \in D})
MinW(o, D) == LET S == {o.m[c] : c \in D} IN CHOOSE x \in S : \A y \in S : x <= y
StepGet(st, ev) ==
    LET o == st.s[ev.i].o[ev.k] L == Units(o) C == DOMAIN o.m \ L
        \* every soft literal and clause is stored once
        single == ev.nl = Cardinality(L) /\ ev.nc = Cardinality(C) IN
    IF \E i \in DOMAIN ev.qs : ~OldOk(o, <<-ev.qs[i]>>, ev.lw[i]) THEN Bad(st, "wrong literal weight")
    ELSE IF \E i \in DOMAIN ev.cls : Len(ev.cls[i]) > 1 /\ ~OldOk(o, ev.cls[i], ev.cw[i]) THEN Bad(st, "wrong clause weight")
    ELSE IF \E i \in DOMAIN ev.ps : ev.cost[i] # Cost(ev.ps[i], o) \/ ev.cost0[i] # Cost0(ev.ps[i], o) THEN Bad(st, "evaluate: wrong cost")
    ELSE IF ev.empty # (DOMAIN o.m = {} /\ o.off = 0) \/ ev.constant # (DOMAIN o.m = {}) \/ ev.off # o.off
        THEN Bad(st, "wrong emptiness, constancy, or offset")
    ELSE IF (ev.nl = 0) # (L = {}) \/ (ev.nc = 0) # (C = {}) \/ ev.ns # ev.nl + ev.nc THEN Bad(st, "wrong number of softs")
    ELSE IF ev.ls # Sum(o, L) \/ ev.cs # Sum(o, C) \/ ev.ws # Sum(o, DOMAIN o.m) THEN Bad(st, "wrong weight sum")
    ELSE IF single /\ ((L # {} /\ (ev.maxl # MaxW(o, L) \/ ev.minl # MinW(o, L))) \/ (C # {} /\ (ev.maxc # MaxW(o, C) \/ ev.minc # MinW(o, C)))
                       \/ (DOMAIN o.m # {} /\ (ev.max # MaxW(o, DOMAIN o.m) \/ ev.min # MinW(o, DOMAIN o.m))))
        THEN Bad(st, "wrong maximum or minimum weight")
    ELSE IF ~ev.mvok THEN Bad(st, "wrong maximum variable")
    ELSE IF ev.slok # (C = {}) \/ (ev.slok /\ Agg(ev.sl) # o.m) THEN Bad(st, "iter_soft_lits: wrong literals")
    ELSE Ok(st)
CostsOk(st, D, costs, off, o) == \A m \in D : costs[m] >= 0 /\ costs[m] + off = Cost(st.masks[m], o)
StepConv(st, ev) ==
    LET o == st.s[ev.i].o[ev.k] IN
    IF ev.lits
    THEN IF ~CostsOk(st, All(st), ev.costs, ev.off, o) THEN Bad(st, "conversion to soft literals changed the costs")
         ELSE IF ~ev.cover THEN Bad(st, "conversion: variables are not marked used") ELSE Ok(st)
    ELSE IF ~Same(o, ev) THEN Bad(st, "conversion to soft clauses changed the objective") ELSE Ok(st)
StepIConv(st, ev) ==
    LET s == st.s[ev.i] IN
    IF SatSet(st, ev) # s.mods THEN Bad(st, "conversion: models changed")
    ELSE IF Len(ev.offs) # Len(s.o) THEN Bad(st, "conversion: number of objectives changed")
    ELSE IF ev.lits /\ (\E k \in DOMAIN s.o : ~CostsOk(st, s.mods, ev.costs[k], ev.offs[k], s.o[k]))
        THEN Bad(st, "conversion to soft literals changed the costs")
    ELSE IF ~ev.lits /\ (\E k \in DOMAIN s.o : ~Same(s.o[k], [items |-> ev.items[k], off |-> ev.offs[k]]))
        THEN Bad(st, "conversion to soft clauses changed the objective")
    ELSE IF ~ev.cover THEN Bad(st, "conversion: variables are not marked used")
    ELSE Ok(st)
StepCost(st, ev) ==
    LET s == st.s[ev.i]
        full == {i \in DOMAIN ev.ps : \A v \in DOMAIN ev.ps[i] : ev.ps[i][v] # 2}
        bad == {i \in full :
            LET m == CHOOSE m \in All(st) : st.masks[m] = ev.ps[i] IN
            IF m \in s.mods THEN ev.r[i].no \/ Len(ev.r[i].c) # Len(s.o) \/ (\E k \in DOMAIN s.o : ev.r[i].c[k] # Cost(ev.ps[i], s.o[k]))
            ELSE ~ev.r[i].no} IN
    IF bad # {} THEN Bad(st, "wrong cost of an assignment") ELSE Ok(st)
StepReindex(st, ev) ==
    IF Cardinality(Range(ev.ren)) # Len(ev.ren) THEN Bad(st, "reindexing is not injective")
    ELSE IF ev.ordered /\ (\E x, y \in DOMAIN ev.ren : x \in Range(ev.ovars) /\ y \in Range(ev.ovars) /\ ev.oren[x] < ev.oren[y] /\ ev.ren[x] > ev.ren[y])
        THEN Bad(st, "ordered reindexing changed the order")
    ELSE IF Top(Range(ev.d.vars)) > ev.d.used THEN Bad(st, "reindex: variables are not marked used")
    ELSE Inst(st, ev.i, ev)
OiStep(st, ev) ==
    CASE ev.e = "new" -> Ok([masks |-> ev.masks, s |-> <<>>])
      [] ev.e = "panic" -> Bad(st, ev.op \o ": panic")
      [] ev.e \in {"make", "compose", "lines", "data"} -> StepMake(st, ev)
      [] ev.i > Len(st.s) -> Bad(st, "slot")
      [] ev.e = "add" -> Inst([st EXCEPT !.s[ev.i].mods = @ \cap MeaningAll(st.masks, ev.cs)], ev.i, ev)
      [] ev.e \in {"changevm", "shuffle"} -> Inst(st, ev.i, ev)
      [] ev.e = "reindex" -> StepReindex(st, ev)
      [] ev.e = "cost" -> StepCost(st, ev)
      [] ev.e = "iconv" -> StepIConv(st, ev)
      [] ev.k > Len(st.s[ev.i].o) -> Bad(st, "objective")
      [] ev.e = "oshuffle" -> Inst(st, ev.i, ev)
      [] ev.e = "setlit" -> StepSet(st, ev, <<-ev.l>>)
      [] ev.e = "setcl" -> StepSet(st, ev, ev.c)
      [] ev.e = "inclit" -> Obj(st, ev, Incr(st.s[ev.i].o[ev.k], <<-ev.l>>, ev.w))
      [] ev.e = "inclitint" -> Obj(st, ev, IncrInt(st.s[ev.i].o[ev.k], ev.l, ev.w))
      [] ev.e = "inccl" -> Obj(st, ev, Incr(st.s[ev.i].o[ev.k], ev.c, ev.w))
      [] ev.e = "setoff" -> Obj(st, ev, [st.s[ev.i].o[ev.k] EXCEPT !.off = ev.w])
      [] ev.e = "incoff" -> Obj(st, ev, [st.s[ev.i].o[ev.k] EXCEPT !.off = @ + ev.w])
      [] ev.e = "normalize" -> Renorm(st, ev)
      [] ev.e = "normeq" -> IF ev.r THEN Ok(st) ELSE Bad(st, "equal objectives have different normal forms")
      [] ev.e = "get" -> StepGet(st, ev)
      [] ev.e = "conv" -> StepConv(st, ev)
      [] OTHER -> Bad(st, ev.e)
=============================================================================
