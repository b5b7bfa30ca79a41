------------------------------- MODULE Solver -------------------------------
(* The state machine behind a (n incremental) SAT solver interface: the      *)
(* clauses added so far as the set of their models over variables 1..nv, the *)
(* interface state, the last query, and the counters. Every event carries    *)
(* what a real solver answered; SlvStep decides whether the answer is one    *)
(* the specification allows.                                                 *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Ran(s) == {s[i] : i \in 1..Len(s)}
Abs(x) == IF x < 0 THEN -x ELSE x
True(m, l) == IF l > 0 THEN l \in m ELSE ~((-l) \in m)
SatCl(m, c) == \E l \in Ran(c) : True(m, l)
SatAll(m, ls) == \A l \in ls : True(m, l)

SlvBlank == [b |-> "", nv |-> 0, ms |-> {}, cls |-> {}, sts |-> {"Input"}, qa |-> {}, qr |-> "none", qas |-> FALSE, stale |-> FALSE,
             md |-> <<>>, co |-> <<>>, hasco |-> FALSE, sat |-> 0, uns |-> 0, trm |-> 0, slS |-> 0, slU |-> 0, ncl |-> 0, lsum |-> 0,
             clv |-> 0, anyv |-> 0, lims |-> {}, lval |-> [k \in {"conf", "dec", "prop"} |-> -1], term |-> -2, lrn |-> -1, frz |-> [v \in 1..12 |-> 0],
             elimok |-> {}, simpd |-> FALSE, tmp |-> <<>>, hastmp |-> FALSE, tmpq |-> FALSE, hv |-> "none", opts |-> <<>>, searched |-> FALSE]

SOk(st) == [ok |-> TRUE, st |-> st, why |-> ""]
SBad(why) == [ok |-> FALSE, st |-> SlvBlank, why |-> why]
Chk(c, why, r) == IF c THEN r ELSE SBad(why)

HasConf(b) == b \in {"cadical", "kissat", "minisat", "minisat-simp", "glucose", "glucose-simp", "ipasir"}
Sim(b) == b \in {"sim-kissat", "sim-minisat", "sim-flaky"}         \* an incremental solver simulated by fresh ones
Exact(b) == b \in {"cadical", "kissat", "ipasir"} \/ Sim(b)   \* the number of clauses is the number added
Simp(b) == b \in {"minisat-simp", "glucose-simp"}
NonInc(b) == b = "kissat"

\* an error naming the state the solver is in, for an operation that requires state need
StateErr(st, r, need) == r.k = "state" /\ r.req = need /\ r.act # need /\ (r.act \in st.sts \/ (Sim(st.b) /\ "Input" \in st.sts /\ r.act \in {"Configuring", "Unknown"}))
Knows(st, r) == IF Sim(st.b) THEN st ELSE [st EXCEPT !.sts = {r.act}]

\* leaving a solved state
Leave(st, to) == [st EXCEPT !.sts = {to}, !.md = <<>>, !.hasco = FALSE, !.co = <<>>, !.qr = "none", !.stale = FALSE, !.tmpq = FALSE]
\* an operation after which the last answer may or may not be available any more
MayLeave(st) == IF st.sts \subseteq {"Input", "Configuring"} THEN [st EXCEPT !.sts = @ \cup {"Input"}]
                ELSE [st EXCEPT !.sts = @ \cup {"Input"}]

UPC(cls, seed) ==
    LET RECURSIVE Go(_)
        Go(s) == LET new == UNION {LET c == Ran(k) IN
                                    IF \E l \in c : l \in s /\ ~(-l \in s) THEN {}
                                    ELSE LET open == {l \in c : ~(-l \in s)} IN
                                         IF Cardinality(open) = 1 THEN open ELSE IF open = {} THEN {0} ELSE {} : k \in cls}
                     nx == s \cup new
                 IN IF nx = s \/ 0 \in nx \/ (\E l \in nx : -l \in nx) THEN nx ELSE Go(nx)
    IN Go(seed)
UPConf(s) == 0 \in s \/ \E l \in s : l # 0 /\ -l \in s

MaxV(cs) == LET vs == {0} \cup UNION {{Abs(l) : l \in Ran(cs[i])} : i \in 1..Len(cs)} IN CHOOSE v \in vs : \A w \in vs : w <= v
RECURSIVE SumLen(_)
SumLen(cs) == IF cs = <<>> THEN 0 ELSE Len(cs[1]) + SumLen(Tail(cs))
Mx(a, b) == IF a >= b THEN a ELSE b

AddCls(st, cs) ==
    Leave([st EXCEPT !.ms = {m \in @ : \A i \in 1..Len(cs) : SatCl(m, cs[i])}, !.cls = @ \cup Ran(cs),
                     !.ncl = @ + Len(cs), !.lsum = @ + SumLen(cs), !.clv = Mx(@, MaxV(cs)), !.anyv = Mx(@, MaxV(cs))], "Input")

\* an elimination error is only allowed for a variable that was not frozen while simplifying
ElimVar(st, ls) == Simp(st.b) /\ \E l \in ls : Abs(l) \in st.elimok

Add(st, ev) ==
    IF ev.cs = <<>> /\ ev.r.k = "ok" THEN SOk(MayLeave(st))
    ELSE IF NonInc(st.b) /\ ~(st.sts \subseteq {"Input", "Configuring"}) THEN
        Chk(StateErr(st, ev.r, "Input"), "clause accepted after solving by a non-incremental solver, or wrong error", SOk(Knows(st, ev.r)))
    ELSE IF ev.r.k = "elim" /\ Len(ev.cs) = 1 THEN
        Chk(ElimVar(st, Ran(ev.cs[1])), "clause refused because of a variable that cannot be eliminated", SOk(st))
    ELSE IF ev.r.k = "elim" THEN SBad("harness: elimination error for several clauses")
    ELSE Chk(ev.r.k = "ok", "adding clauses fails", SOk(AddCls(st, ev.cs)))

\* ---- queries ----
Lims(st) == st.lims
MayInt(st) == st.lims # {} \/ st.term >= 0
AfterQuery(st) ==
    \* limits of CaDiCaL and Kissat only hold for one call; those of the others stay; an interrupt of CaDiCaL holds for one call
    [st EXCEPT !.lims = IF st.b = "cadical" THEN {} ELSE @, !.simpd = TRUE, !.searched = TRUE, !.hastmp = FALSE, !.tmpq = st.hastmp, !.tmp = IF st.hastmp THEN @ ELSE <<>>,
               !.elimok = IF Simp(st.b) THEN @ \cup {v \in DOMAIN st.frz : st.frz[v] = 0} ELSE @]

\* the models of the query: temporary clause and assumptions included
QMs(st, A) == {m \in st.ms : SatAll(m, A) /\ (st.hastmp => SatCl(m, st.tmp))}

Answer(st, ev, A) ==
    LET q == QMs(st, A)
        v == ev.r.v
        cached == v # "Int" /\ v \in st.sts /\ ~ev.as
        sureNew == ev.as \/ ~(st.sts \cap {"Sat", "Unsat"} # {})
        sureCached == ~ev.as /\ Cardinality(st.sts) = 1 /\ (st.sts = {"Sat"} \/ (st.sts = {"Unsat"} /\ ~st.qas)) /\ ~st.tmpq
        want == IF q = {} THEN "Unsat" ELSE "Sat"
        base == IF sureCached THEN st ELSE [st EXCEPT !.md = <<>>, !.hasco = FALSE, !.co = <<>>]
        maybe == cached /\ ~sureNew      \* the answer may be the one of the last query
        keepA == IF sureCached THEN st.qa ELSE IF maybe /\ v = "Sat" THEN {} ELSE A
        \* a cached answer is one about the clauses alone
        st1 == IF sureCached THEN base
               ELSE LET s2 == IF maybe THEN [AfterQuery(base) EXCEPT !.lims = st.lims] ELSE AfterQuery(base) IN
                    CASE v = "Sat" -> IF sureNew THEN [s2 EXCEPT !.sat = @ + 1] ELSE [s2 EXCEPT !.slS = @ + 1]
                      [] v = "Unsat" -> IF sureNew THEN [s2 EXCEPT !.uns = @ + 1] ELSE [s2 EXCEPT !.slU = @ + 1]
                      [] OTHER -> [s2 EXCEPT !.trm = @ + 1]
    IN  IF v = "Int" THEN
            Chk(MayInt(st) /\ ~sureCached, "interrupted without a limit, terminator or interrupt",
                SOk([Leave(st1, IF NonInc(st.b) THEN "Unknown" ELSE "Input") EXCEPT !.anyv = Mx(@, MaxV(<<ev.a>>))]))
        ELSE Chk(v = want, IF want = "Sat" THEN "satisfiable query answered unsatisfiable" ELSE "unsatisfiable query answered satisfiable",
             SOk([st1 EXCEPT !.sts = {v}, !.qa = keepA, !.qr = v, !.qas = IF sureCached THEN @ ELSE ev.as,
                             !.anyv = Mx(@, MaxV(<<ev.a>>)), !.tmpq = IF sureCached THEN @ ELSE st.hastmp]))

LearnOk(st, lrn) == \A i \in 1..Len(lrn) :
    /\ st.lrn >= 0 /\ Len(lrn[i]) <= st.lrn
    /\ \A m \in st.ms : (\A l \in Ran(lrn[i]) : Abs(l) <= st.nv) => SatCl(m, lrn[i])

\* how far a search may go beyond a limit on the conflicts, decisions or propagations
\* (Glucose only looks at its limits when it restarts)
Slack == [conf |-> 30, dec |-> 60, prop |-> 3000]
SlackG == [conf |-> 20000, dec |-> 200000, prop |-> 2000000]
SlackOf(st, k) == IF st.b \in {"glucose", "glucose-simp"} THEN SlackG[k] ELSE Slack[k]
Dix == [conf |-> 1, dec |-> 2, prop |-> 3]
LimOver(st, ev) == \A k \in st.lims \cap {"conf", "dec", "prop"} : st.lval[k] < 0 \/ ev.dc[Dix[k]] <= st.lval[k] + SlackOf(st, k)

Solve(st, ev) ==
    LET A == Ran(ev.a) IN
    IF ev.r.k = "elim" THEN Chk(ElimVar(st, A), "assumption refused because of a variable that cannot be eliminated", SOk([st EXCEPT !.sts = @ \cup {"Input"}]))
    ELSE IF NonInc(st.b) /\ "Unknown" \in st.sts THEN Chk(StateErr(st, ev.r, "Input"), "solving again after an interruption", SOk(st))
    \* a failed query of the solver below leaves the clauses as they were
    ELSE IF ev.r.k = "other" /\ st.b = "sim-flaky" /\ "int" \in st.lims THEN SOk(MayLeave(st))
    ELSE IF ev.r.k # "res" THEN SBad("query fails: " \o ev.r.k)
    ELSE IF st.hv # "none" THEN SBad("harness: small query on a large instance")
    ELSE Chk(LearnOk(st, ev.lrn), "learned clause is not implied, too long, or reported to a detached learner",
         Chk(ev.calls[1] = 0 \/ st.term >= -1, "detached terminator called",
         Chk(LimOver(st, ev), "search continued beyond its limit", Answer(st, ev, A))))

\* large instances: only the verdict is known
HSolve(st, ev) ==
    IF ev.r.k = "elim" THEN Chk(Simp(st.b) /\ st.searched, "assumption refused because of a variable that cannot be eliminated", SOk([st EXCEPT !.sts = @ \cup {"Input"}]))
    ELSE IF NonInc(st.b) /\ "Unknown" \in st.sts THEN Chk(StateErr(st, ev.r, "Input"), "solving again after an interruption", SOk(st))
    ELSE IF ev.r.k = "other" /\ st.b = "sim-flaky" /\ "int" \in st.lims THEN SOk(MayLeave(st))
    ELSE IF ev.r.k # "res" THEN SBad("query fails: " \o ev.r.k)
    ELSE LET v == ev.r.v
             was == st.sts
             st1 == AfterQuery(st)
             cached == ~ev.as /\ v \in was /\ st.qr = v
         IN  Chk(ev.lmax <= Mx(st.lrn, 0), "learned clause too long or reported to a detached learner",
             Chk(ev.calls[1] = 0 \/ st.term >= -1, "detached terminator called",
             Chk(cached \/ LimOver(st, ev), "search continued beyond its limit",
             Chk(ev.calls[2] = 0 \/ v = "Int", "request to terminate ignored",
             Chk(~ev.must \/ v = "Int", "hard query not interrupted by limit, terminator or interrupt",
             IF v = "Int" THEN Chk(MayInt(st) \/ ev.us > 0, "interrupted without a limit, terminator or interrupt",
                                   SOk([Leave(st1, IF NonInc(st.b) THEN "Unknown" ELSE "Input") EXCEPT !.trm = @ + 1,
                                        !.lims = IF ev.us > 0 /\ ~(st.b = "cadical") THEN @ \cup {"int"} ELSE @]))
             ELSE Chk(v = st.hv, "wrong verdict", Chk(v = "Unsat" \/ ev.fals = 0, "model does not satisfy the clauses",
                  SOk([st1 EXCEPT !.sts = {v}, !.qr = v,
                       !.slS = @ + (IF v = "Sat" THEN 1 ELSE 0), !.slU = @ + (IF v = "Unsat" THEN 1 ELSE 0),
                       !.lims = IF ev.us > 0 THEN @ \cup {"int"} ELSE @]))))))))

\* ---- models ----
Compl(p, nv) == {m \in SUBSET (1..nv) : \A v \in 1..nv : (p[v] = 1 => v \in m) /\ (p[v] = 0 => ~(v \in m))}
Dual(p, n) == \A i \in 1..Len(p) : (p[i] = 1 /\ n[i] = 0) \/ (p[i] = 0 /\ n[i] = 1) \/ (p[i] = -1 /\ n[i] = -1)
At(p, i) == IF i <= Len(p) THEN p[i] ELSE -1

ModelOk(st, p) == LET c == Compl(p, st.nv) IN c \subseteq st.ms /\ \A m \in c : SatAll(m, st.qa) /\ (st.tmpq => SatCl(m, st.tmp))

Vals(st, ev) ==
    IF ev.r.k = "vals" THEN
        LET p == ev.r.p IN
        Chk("Sat" \in st.sts, "values without a satisfiable answer",
        Chk(Dual(p, ev.r.n), "values of a literal and its negation do not match",
        Chk(ModelOk(st, p), "model does not satisfy the clauses and assumptions",
        Chk(st.md = <<>> \/ st.md = p, "model changes between queries",
        Chk(ev.sol.k = "sol" /\ Len(ev.sol.a) <= ev.h /\ \A i \in 1..ev.h : i <= Len(p) => At(ev.sol.a, i) = p[i], "solution differs from the literal values",
        Chk(ev.full.k = "sol" /\ Len(ev.full.a) <= ev.mxv /\ \A i \in 1..Len(p) : i <= ev.mxv => At(ev.full.a, i) = p[i], "full solution differs from the literal values",
        Chk(ev.vv.k = "val" /\ (ev.h <= Len(p) => ev.vv.v = p[ev.h]), "variable value differs from the literal value",
            SOk([st EXCEPT !.md = p, !.sts = {"Sat"}]))))))))
    ELSE Chk(StateErr(st, ev.r, "Sat"), "model not available, or wrong error without a model",
         Chk(ev.sol = ev.r /\ ev.full = ev.r /\ ev.vv = ev.r, "value queries disagree about the state",
             SOk(Knows(st, ev.r))))

Core(st, ev) ==
    IF ev.r.k = "core" THEN
        LET c == Ran(ev.r.c)
            A == {-l : l \in c}
        IN  Chk("Unsat" \in st.sts, "core without an unsatisfiable answer",
            Chk(A \subseteq st.qa, "core literal is not a negated assumption",
            Chk(\A m \in st.ms : SatAll(m, A) => (st.tmpq /\ ~SatCl(m, st.tmp)), "core is consistent with the clauses",
            Chk(~st.hasco \/ st.co = c, "core changes between queries",
                SOk([st EXCEPT !.hasco = TRUE, !.co = c, !.sts = {"Unsat"}])))))
    ELSE Chk(StateErr(st, ev.r, "Unsat"), "core not available, or wrong error without a core", SOk(Knows(st, ev.r)))

Stats(st, ev) ==
    Chk(ev.same, "statistics accessors disagree",
    Chk(ev.sat \in st.sat..(st.sat + st.slS), "number of satisfiable queries",
    Chk(ev.uns \in st.uns..(st.uns + st.slU), "number of unsatisfiable queries",
    Chk(ev.trm = st.trm, "number of terminated queries",
    Chk(IF Exact(st.b) THEN ev.ncl = st.ncl ELSE ev.ncl <= st.ncl + (IF st.b = "kissat" THEN 0 ELSE 0), "number of clauses",
    Chk(ev.mxv >= st.clv /\ ev.mxv <= st.anyv, "highest variable",
    Chk(IF st.ncl = 0 THEN ev.avg = 0 ELSE Abs(ev.avg * st.ncl - 1000 * st.lsum) <= 2 * st.ncl, "average clause length",
        SOk([st EXCEPT !.sat = ev.sat, !.uns = ev.uns, !.slS = 0, !.slU = 0]))))))))

\* ---- controls ----
Seen(st, v) == [st EXCEPT !.anyv = Mx(@, v)]
Reserve(st, ev) ==
    IF NonInc(st.b) /\ ev.r.k = "state" THEN Chk(StateErr(st, ev.r, "Input"), "reserving variables fails", SOk(Knows(st, ev.r)))
    ELSE Chk(ev.r.k = "ok", "reserving variables fails", SOk(MayLeave(Seen(st, ev.v))))
Phase(st, ev) == Chk(ev.r.k = "ok", "phase not accepted", SOk(Seen(st, Abs(ev.l))))
Unphase(st, ev) == Chk(ev.r.k = "ok", "removing a phase fails", SOk(Seen(st, ev.v)))
Freeze(st, ev) == Chk(ev.r.k = "ok", "freezing fails",
    SOk(Seen([st EXCEPT !.frz[ev.v] = IF st.b = "cadical" THEN @ + 1 ELSE 1], ev.v)))
Melt(st, ev) == Chk(ev.r.k = "ok", "melting fails", SOk(Seen([st EXCEPT !.frz[ev.v] = IF @ > 0 THEN @ - 1 ELSE 0], ev.v)))
Frozen(st, ev) == Chk(ev.r.k = "b" /\ ev.r.v = (st.frz[ev.v] > 0), "wrong freezing status", SOk(st))
Elim(st, ev) == Chk(ev.r.k = "b" /\ (ev.r.v => ev.v \in st.elimok), "frozen variable eliminated", SOk(st))

Limit(st, ev) == Chk(ev.r.k = "ok", "limit not accepted",
    SOk(IF ev.n < 0 THEN [st EXCEPT !.lims = @ \ {ev.k}, !.lval[ev.k] = -1] ELSE [st EXCEPT !.lims = @ \cup {ev.k}, !.lval[ev.k] = ev.n]))
CLimit(st, ev) == Chk(ev.r.k = "ok", "limit not accepted",
    SOk(CASE ev.k \in {"conflicts", "decisions", "terminate"} ->
               LET k == CASE ev.k = "conflicts" -> "conf" [] ev.k = "decisions" -> "dec" [] OTHER -> "tlim" IN
               IF ev.n < 0 THEN [st EXCEPT !.lims = @ \ {k}] ELSE IF k = "tlim" THEN [st EXCEPT !.lims = @ \cup {k}] ELSE [st EXCEPT !.lims = @ \cup {k}, !.lval[k] = ev.n]
          [] OTHER -> st))
Interrupt(st, ev) == Chk(ev.r.k = "ok", "interrupting fails", SOk([st EXCEPT !.lims = @ \cup {"int"}]))
Term(st, ev) == Chk(ev.r.k = "ok" /\ ~ev.alive, "attaching a terminator fails or keeps the old one", SOk([st EXCEPT !.term = ev.n]))
TermOff(st, ev) == Chk(ev.r.k = "ok" /\ ~ev.alive, "detached terminator kept",
                   Chk(ev.other = (IF st.lrn >= 0 THEN 1 ELSE 0), "detaching the terminator affects the learner", SOk([st EXCEPT !.term = -2])))
Learner(st, ev) == Chk(ev.r.k = "ok" /\ ~ev.alive, "attaching a learner fails or keeps the old one", SOk([st EXCEPT !.lrn = ev.max]))
LearnOff(st, ev) == Chk(ev.r.k = "ok" /\ ~ev.alive, "detached learner kept",
                    Chk(ev.other = (IF st.term >= -1 THEN 1 ELSE 0), "detaching the learner affects the terminator", SOk([st EXCEPT !.lrn = -1])))

Prop(st, ev) ==
    IF ev.r.k = "elim" THEN Chk(ElimVar(st, Ran(ev.a)), "assumption refused because of a variable that cannot be eliminated", SOk(MayLeave(st)))
    ELSE IF ev.r.k # "prop" THEN SBad("propagation fails: " \o ev.r.k)
    ELSE LET A == Ran(ev.a)
             q == {m \in st.ms : SatAll(m, A)}
             P == Ran(ev.r.p)
             up == UPC(st.cls, A)
             root == UPC(st.cls, {})
             st1 == [st EXCEPT !.anyv = Mx(@, MaxV(<<ev.a>>)), !.hastmp = FALSE, !.lims = IF st.b = "cadical" THEN {} ELSE @]
         IN  Chk(~ev.r.c \/ q = {} \/ st.hastmp, "conflict reported for consistent assumptions",
             Chk(ev.r.c \/ \A m \in q : (SatAll(m, {l \in P : Abs(l) <= st.nv}) \/ (st.hastmp /\ ~SatCl(m, st.tmp))), "propagated literal is not implied",
             Chk(st.simpd \/ ev.r.c \/ st.lims # {} \/ st.term >= 0 \/ (~UPConf(up) /\ (up \ (root \cup A)) \subseteq P), "propagation misses a unit implication",
                 SOk([Leave(st1, "Input") EXCEPT !.sts = IF st.b = "cadical" THEN {"Input", "Sat"} ELSE {"Input"}, !.qa = A, !.slS = @]))))

Toggle(p, v) == [p EXCEPT ![v] = IF @ = 1 THEN 0 ELSE IF @ = 0 THEN 1 ELSE @]
Flip(st, ev) ==
    LET v == Abs(ev.l) IN
    IF "Sat" \in st.sts /\ ev.r.k = "b" THEN
        Chk(ev.can.k = "b" /\ Len(ev.bef) = st.nv /\ Len(ev.aft) = st.nv, "flipping fails in satisfied state",
        Chk(\A i \in 1..st.nv : st.md = <<>> \/ st.md[i] = ev.bef[i], "model changes between queries",
        Chk(ev.mid = ev.bef, "asking whether a literal can be flipped changes the model",
        Chk(~ev.can.v \/ (v <= st.nv /\ ev.bef[v] # -1 /\ \E m \in st.ms : (v \in m) = (ev.bef[v] = 0)), "literal reported flippable cannot be flipped",
        Chk(ev.can.v = ev.r.v, "flipping disagrees with being flippable",
        \* flipping may change variables whose values are reconstructed
        Chk(IF ev.r.v THEN ev.aft[v] = Toggle(ev.bef, v)[v] ELSE ev.aft = ev.bef, "flipping does not flip, or changes values without flipping",
        Chk(Compl(ev.aft, st.nv) \subseteq st.ms, "flipped assignment is no model",
            SOk([st EXCEPT !.sts = {"Sat"}, !.md = <<>>, !.tmpq = @ /\ ~ev.r.v, !.qa = IF ev.r.v THEN {l \in @ : Abs(l) # v} ELSE @]))))))))
    ELSE Chk(StateErr(st, ev.r, "Sat") /\ ev.can = ev.r, "flipping outside the satisfied state", SOk(Knows(st, ev.r)))

\* a clause for the next query only
Tmp(st, ev) == Chk(ev.r.k = "ok", "temporary clause not accepted",
    SOk([Leave(st, "Input") EXCEPT !.tmp = ev.c, !.hastmp = TRUE, !.ncl = @ + 1, !.lsum = @ + Len(ev.c), !.anyv = Mx(@, MaxV(<<ev.c>>))]))
TmpCore(st, ev) ==
    IF ev.r.k = "b" THEN
        Chk("Unsat" \in st.sts, "temporary clause in core without an unsatisfiable answer",
        Chk(ev.r.v \/ ~(\E m \in st.ms : SatAll(m, st.qa)), "temporary clause is needed but not in the core",
        Chk(st.tmpq \/ ~ev.r.v, "no temporary clause but it is in the core", SOk([st EXCEPT !.sts = {"Unsat"}]))))
    ELSE Chk(StateErr(st, ev.r, "Unsat"), "wrong error for the temporary clause", SOk(Knows(st, ev.r)))
\* preprocessing may answer the query, or not
Simplify(st, ev) ==
    IF ev.r.k # "res" THEN SBad("simplifying fails: " \o ev.r.k)
    ELSE LET A == Ran(ev.a)
             q == QMs(st, A)
             st1 == [AfterQuery(st) EXCEPT !.anyv = Mx(@, MaxV(<<ev.a>>))]
             cached == ev.r.v \in st.sts
         IN  IF ev.r.v = "Int" THEN SOk(Leave(st1, "Input"))
             ELSE Chk(ev.r.v = (IF q = {} THEN "Unsat" ELSE "Sat"), "simplification gives a wrong answer",
                      SOk([(IF cached /\ ev.r.v = "Sat" THEN st ELSE Leave(st1, ev.r.v)) EXCEPT !.sts = {ev.r.v}, !.qr = ev.r.v, !.qas = ev.as,
                           !.qa = IF cached /\ ~ev.as THEN @ ELSE A, !.tmpq = st.hastmp,
                           !.slS = @ + (IF ev.r.v = "Sat" THEN 1 ELSE 0), !.slU = @ + (IF ev.r.v = "Unsat" THEN 1 ELSE 0)]))

\* options: what can be set is read back, and unknown ones are refused
Opt(st, ev) ==
    IF ev.bad THEN Chk(ev.r.k = "other" \/ (StateErr(st, ev.r, "Configuring")), "unknown option accepted", SOk(st))
    ELSE IF ev.r.k = "ok" THEN SOk([st EXCEPT !.opts = (ev.name :> ev.val) @@ @])
    ELSE Chk(StateErr(st, ev.r, "Configuring"), "option not accepted", SOk(Knows(st, ev.r)))
GetOpt(st, ev) == Chk(ev.r.k = "int" /\ (ev.name \in DOMAIN st.opts => ev.r.v = st.opts[ev.name]), "option value differs from what was set", SOk(st))
Conf(st, ev) ==
    IF "Configuring" \in st.sts /\ ev.r.k = "ok" THEN SOk([st EXCEPT !.sts = {"Configuring"}, !.opts = <<>>])
    ELSE Chk(StateErr(st, ev.r, "Configuring"), "configuration not accepted, or accepted too late", SOk(Knows(st, ev.r)))
Fixed(st, ev) == Chk(ev.r.k = "val" /\ (ev.r.v = -1 \/ (Abs(ev.l) <= st.nv /\ \A m \in st.ms : True(m, IF ev.r.v = 1 THEN ev.l ELSE -ev.l)) \/ (st.hastmp \/ st.tmp # <<>>)),
                     "literal reported fixed is not implied", SOk(st))
Nums(st, ev) == Chk(ev.r.k = "nums" /\ \A i \in 1..Len(ev.r.v) : ev.r.v[i] >= 0, "negative statistic", SOk(st))
Declare(st, ev) == Chk(ev.r.k = "int" /\ ev.r.v >= st.clv + ev.n, "declared variables are not new", SOk(MayLeave([st EXCEPT !.anyv = Mx(@, ev.r.v)])))

HAdd(st, ev) == Chk(ev.r.k = "ok", "adding clauses fails",
    SOk([st EXCEPT !.sts = {"Input"}, !.hv = IF ev.p > ev.h THEN "Unsat" ELSE "Sat", !.qr = "none",
                   !.ncl = @ + ev.p + ev.h * ((ev.p * (ev.p - 1)) \div 2), !.lsum = @ + ev.p * ev.h + ev.h * ev.p * (ev.p - 1),
                   !.clv = Mx(@, ev.p * ev.h), !.anyv = Mx(@, ev.p * ev.h)]))

SlvStep(st, ev) ==
    CASE ev.e = "new" -> SOk([SlvBlank EXCEPT !.b = IF "stub" \in DOMAIN ev THEN "" ELSE ev.b, !.nv = IF "stub" \in DOMAIN ev THEN 0 ELSE ev.nv,
                                              !.ms = IF "stub" \in DOMAIN ev THEN {} ELSE SUBSET (1..ev.nv),
                                              !.sts = IF "stub" \in DOMAIN ev THEN {"Input"} ELSE IF HasConf(ev.b) THEN {"Configuring"} ELSE {"Input"}])
      [] ev.e = "add" -> Add(st, ev)
      [] ev.e = "hadd" -> HAdd(st, ev)
      [] ev.e = "solve" -> IF st.hv = "none" THEN Solve(st, ev) ELSE HSolve(st, ev)
      [] ev.e = "vals" -> Vals(st, ev)
      [] ev.e = "core" -> Core(st, ev)
      [] ev.e = "stats" -> Stats(st, ev)
      [] ev.e = "reserve" -> Reserve(st, ev)
      [] ev.e = "phase" -> Phase(st, ev)
      [] ev.e = "unphase" -> Unphase(st, ev)
      [] ev.e = "freeze" -> Freeze(st, ev)
      [] ev.e = "melt" -> Melt(st, ev)
      [] ev.e = "frozen" -> Frozen(st, ev)
      [] ev.e = "elim" -> Elim(st, ev)
      [] ev.e = "limit" -> Limit(st, ev)
      [] ev.e = "climit" -> CLimit(st, ev)
      [] ev.e \in {"int", "flaky"} -> Interrupt(st, ev)
      [] ev.e = "term" -> Term(st, ev)
      [] ev.e = "termoff" -> TermOff(st, ev)
      [] ev.e = "learn" -> Learner(st, ev)
      [] ev.e = "learnoff" -> LearnOff(st, ev)
      [] ev.e = "prop" -> Prop(st, ev)
      [] ev.e = "flip" -> Flip(st, ev)
      [] ev.e = "tmp" -> Tmp(st, ev)
      [] ev.e = "tmpcore" -> TmpCore(st, ev)
      [] ev.e = "simplify" -> Simplify(st, ev)
      [] ev.e = "opt" -> Opt(st, ev)
      [] ev.e = "getopt" -> GetOpt(st, ev)
      [] ev.e = "conf" -> Conf(st, ev)
      [] ev.e = "fixed" -> Fixed(st, ev)
      [] ev.e \in {"active", "cstats", "nums"} -> Nums(st, ev)
      [] ev.e = "declare" -> Declare(st, ev)
=============================================================================
