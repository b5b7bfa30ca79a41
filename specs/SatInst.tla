------------------------------ MODULE SatInst ------------------------------
(* Satisfiability instances. A slot holds                                   *)
(*   mods  the assignments (indices into masks) of the original variables   *)
(*         satisfying everything added so far                               *)
(*   next  all variables below it are used (0-based)                        *)
(*   k     "C" for a plain CNF, which tracks no variables                   *)
(*   cnf   TRUE if only clauses may be contained                            *)
(* Renaming is undone by the recorder's table ren (original variable i is   *)
(* now variable ren[i]); auxiliary variables are projected out by it (sat). *)
EXTENDS Constr, TLC
SiBlank == [masks |-> <<>>, s |-> <<>>]
Ok(st) == [ok |-> TRUE, st |-> st, why |-> ""]
Bad(st, why) == [ok |-> FALSE, st |-> st, why |-> why]
Max(a, b) == IF a > b THEN a ELSE b
All(st) == DOMAIN st.masks
MeaningAll(masks, cs) == {m \in DOMAIN masks : \A i \in DOMAIN cs : Holds(masks[m], cs[i])}
VarOf(x) == IF x > 0 THEN x ELSE -x
VarsOf(cs) == UNION {{VarOf(c.l[i]) : i \in DOMAIN c.l} : c \in Range(cs)}
Top(S) == IF S = {} THEN 0 ELSE CHOOSE x \in S : \A y \in S : y <= x
\* the reported contents of a slot are exactly its models
SatSet(st, ev) == {m \in All(st) : ev.sat[m] = 1}
Inst(st, i, ev) ==
    LET s == st.s[i] d == ev.d IN
    IF SatSet(st, d) # s.mods THEN Bad(st, ev.e \o ": models changed")
    ELSE IF s.cnf /\ (d.ncard # 0 \/ d.npb # 0) THEN Bad(st, ev.e \o ": non-clausal constraints left")
    ELSE IF d.ncl # d.lcl \/ d.ncard # d.lcard \/ d.npb # d.lpb \/ d.n # d.ncl + d.ncard + d.npb
        THEN Bad(st, ev.e \o ": wrong constraint counts")
    ELSE IF d.max # d.used - 1 THEN Bad(st, ev.e \o ": maximum variable and count disagree")
    ELSE IF s.k # "C" /\ d.used < s.next THEN Bad(st, ev.e \o ": used variables are no longer covered")
    ELSE IF Top(Range(d.vars)) > d.used THEN Bad(st, ev.e \o ": variables in constraints are not marked used")
    ELSE IF Range(d.vs) # Range(d.vars) THEN Bad(st, ev.e \o ": wrong variable set")
    ELSE Ok([st EXCEPT !.s[i].next = d.used])
Upd(st, i, mods, next) == [st EXCEPT !.s[i].mods = mods, !.s[i].next = next]
\* adding constraints: exactly their variables become used
StepAdd(st, ev) ==
    LET i == ev.i s == st.s[i]
        next == Max(s.next, Top({ev.ren[v] : v \in VarsOf(ev.cs)}))
        new == Upd(st, i, s.mods \cap MeaningAll(st.masks, ev.cs), next) IN
    IF s.k # "C" /\ ev.d.used # next THEN Bad(st, ev.e \o ": variables of the constraint are not exactly marked used")
    ELSE Inst([new EXCEPT !.s[i].cnf = s.cnf /\ \A k \in DOMAIN ev.cs : ev.cs[k].k = "cl"], i, ev)
\* an implication between clauses and cubes of literals
Antec(mask, k, a) == IF k = "q" THEN \A x \in Range(a) : LitTrue(mask, x) ELSE \E x \in Range(a) : LitTrue(mask, x)
StepImpl(st, ev) ==
    LET i == ev.i s == st.s[i]
        mods == {m \in s.mods : Antec(st.masks[m], ev.ka, ev.a) => Antec(st.masks[m], ev.kb, ev.b)}
        next == Max(s.next, Top({ev.ren[VarOf(x)] : x \in Range(ev.a) \cup Range(ev.b)})) IN
    IF s.k # "C" /\ ev.d.used # next THEN Bad(st, "implication: variables are not exactly marked used")
    ELSE Inst(Upd(st, i, mods, next), i, ev)
StepExtend(st, ev) ==
    LET a == st.s[ev.i] b == st.s[ev.j]
        new == [st EXCEPT !.s[ev.i].mods = a.mods \cap b.mods, !.s[ev.i].next = Max(a.next, b.next),
                          !.s[ev.i].cnf = a.cnf /\ b.cnf] IN
    IF a.k # "C" /\ ev.d.used # Max(a.next, b.next) THEN Bad(st, "extend: wrong used variables") ELSE Inst(new, ev.i, ev)
\* partial assignments p: 0 false, 1 true, 2 unassigned
Compl(st, p) == {m \in All(st) : \A v \in DOMAIN p : p[v] = 2 \/ p[v] = st.masks[m][v]}
\* three-valued conjunction
Conj(S) == IF "F" \in S THEN "F" ELSE IF "D" \in S THEN "D" ELSE "T"
StepEval(st, ev) ==
    LET s == st.s[ev.i]
        bad == {k \in DOMAIN ev.ps :
            LET c == Compl(st, ev.ps[k]) IN
            \/ ev.r[k] # Conj(Range(ev.each[k]))
            \/ ev.r[k] = "T" /\ ~(c \subseteq s.mods)
            \/ ev.r[k] = "F" /\ c \cap s.mods # {}
            \/ ev.r[k] = "D" /\ ~ev.aux /\ Cardinality(c) = 1} IN
    IF bad # {} THEN Bad(st, "evaluation disagrees with the models") ELSE Ok(st)
StepViolated(st, ev) ==
    LET s == st.s[ev.i]
        bad == {k \in DOMAIN ev.ps :
            LET c == Compl(st, ev.ps[k]) r == ev.r[k] IN
            \/ r.k = "none" /\ ~(c \subseteq s.mods)
            \/ r.k # "none" /\ ~r.in
            \/ r.k # "none" /\ ~r.un /\ Cardinality(c) = 1 /\ (\E m \in c : Holds(st.masks[m], r))
            \/ r.k # "none" /\ c \subseteq s.mods /\ Cardinality(c) = 1} IN
    IF bad # {} THEN Bad(st, "reported violated constraint is wrong") ELSE Ok(st)
StepConv(st, ev) ==
    LET s == st.s[ev.i] IN
    IF SatSet(st, ev) # s.mods THEN Bad(st, ev.e \o ": models changed")
    ELSE IF s.k # "C" /\ ev.used < s.next THEN Bad(st, ev.e \o ": used variables are no longer covered")
    ELSE IF Top(Range(ev.vars)) > ev.used THEN Bad(st, ev.e \o ": variables are not marked used")
    ELSE IF ev.e = "intopbs" /\ ~ev.samen THEN Bad(st, "intopbs: number of constraints changed")
    ELSE Ok(st)
StepReindex(st, ev) ==
    LET i == ev.i s == st.s[i] IN
    IF Cardinality(Range(ev.ren)) # Len(ev.ren) THEN Bad(st, "reindexing is not injective")
    ELSE IF ev.ordered /\ (\E x, y \in DOMAIN ev.ren : x \in Range(ev.ovars) /\ y \in Range(ev.ovars) /\ ev.oren[x] < ev.oren[y] /\ ev.ren[x] > ev.ren[y])
        THEN Bad(st, "ordered reindexing changed the order")
    ELSE LET d == ev.d IN
         IF Top(Range(d.vars)) > d.used THEN Bad(st, "reindex: variables in constraints are not marked used")
         ELSE Inst([st EXCEPT !.s[i].next = 0], i, ev)
Blank0(st, k) == [mods |-> All(st), next |-> 0, cnf |-> TRUE, k |-> k]
SiStep(st, ev) ==
    CASE ev.e = "new" -> Ok([masks |-> ev.masks, s |-> <<>>])
      [] ev.e = "make" -> Inst([st EXCEPT !.s = Append(@, [Blank0(st, ev.k) EXCEPT !.next = ev.next])], ev.i, ev)
      [] ev.e = "from" -> StepAdd([st EXCEPT !.s = Append(@, Blank0(st, ev.k))], ev)
      [] ev.e = "panic" -> Bad(st, ev.op \o ": panic")
      [] ev.i > Len(st.s) -> Bad(st, "slot")
      [] ev.e = "add" -> StepAdd(st, ev)
      [] ev.e = "impl" -> StepImpl(st, ev)
      [] ev.e = "extend" -> StepExtend(st, ev)
      [] ev.e = "newvar" ->
            IF ev.v < st.s[ev.i].next THEN Bad(st, "new variable is already used")
            ELSE Inst([st EXCEPT !.s[ev.i].next = ev.v + 1], ev.i, ev)
      [] ev.e \in {"sanitize", "shuffle", "normalize", "changevm"} -> Inst(st, ev.i, ev)
      [] ev.e = "clear" ->
            IF ~ev.idx THEN Bad(st, "indexing and iterating disagree")
            ELSE IF ~ev.cap THEN Bad(st, "shrinking lost clauses")
            ELSE IF ev.clear THEN Inst([st EXCEPT !.s[ev.i].mods = All(st), !.s[ev.i].cnf = TRUE], ev.i, ev)
            ELSE Inst(st, ev.i, ev)
      [] ev.e = "normeq" -> IF ev.r THEN Ok(st) ELSE Bad(st, "equal clause sets have different normal forms")
      [] ev.e = "tocnf" -> Inst([st EXCEPT !.s[ev.i].cnf = TRUE], ev.i, ev)
      [] ev.e \in {"intopbs", "intocnf"} -> StepConv(st, ev)
      [] ev.e = "reindex" -> StepReindex(st, ev)
      [] ev.e = "eval" -> StepEval(st, ev)
      [] ev.e = "violated" -> StepViolated(st, ev)
      [] OTHER -> Bad(st, ev.e)
=============================================================================
