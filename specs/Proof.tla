------------------------------- MODULE Proof --------------------------------
(* A proof as a machine: a database of pseudo-Boolean constraints that each *)
(* rule of the VeriPB 2 format extends, checks, shrinks or marks, with the  *)
(* numbering of constraints. A constraint is [c, d]: positive coefficients  *)
(* per literal (never of both literals of a variable) and a degree.         *)
(* judge = 1: every rule must be justified. judge = 0: the rules are taken  *)
(* as they are, but must be the ones asked for and identifiers must agree.  *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Functions, SequencesExt, FiniteSetsExt
PrBlank == [n |-> 0]
Ok(st) == [ok |-> TRUE, st |-> st, why |-> ""]
Bad(st, why) == [ok |-> FALSE, st |-> st, why |-> why]
Abs(x) == IF x < 0 THEN -x ELSE x
Mn(a, b) == IF a < b THEN a ELSE b
Rng(s) == {s[i] : i \in DOMAIN s}
Plus(a, b) == a + b

(* ---- pseudo-Boolean arithmetic ---------------------------------------- *)
Triv == [c |-> <<>>, d |-> 0]
Drop(f, x) == [y \in DOMAIN f \ {x} |-> f[y]]
Put(f, x, v) == IF v = 0 THEN Drop(f, x) ELSE (x :> v) @@ f
RECURSIVE AddTerm(_, _, _)
AddTerm(k, a, x) ==
    IF a = 0 THEN k
    ELSE IF a < 0 THEN AddTerm([k EXCEPT !.d = @ - a], -a, -x)
    ELSE IF -x \in DOMAIN k.c THEN
        LET b == k.c[-x] m == Mn(a, b) IN
        [c |-> Put(Put(k.c, -x, b - m), x, a - m), d |-> k.d - m]
    ELSE [k EXCEPT !.c = Put(@, x, a + (IF x \in DOMAIN @ THEN @[x] ELSE 0))]
Norm(t, b) == FoldLeft(LAMBDA k, p : AddTerm(k, p[1], p[2]), [c |-> <<>>, d |-> b], t)
NormC(c) == Norm(c.t, c.b)
Add(k, m) == FoldSet(LAMBDA x, acc : AddTerm(acc, m.c[x], x), [k EXCEPT !.d = @ + m.d], DOMAIN m.c)
Mul(k, n) == [c |-> [x \in DOMAIN k.c |-> k.c[x] * n], d |-> k.d * n]
Ceil(a, n) == -((-a) \div n)
Div(k, n) == [c |-> [x \in DOMAIN k.c |-> Ceil(k.c[x], n)], d |-> Ceil(k.d, n)]
Sat(k) == IF k.d <= 0 THEN [k EXCEPT !.c = <<>>] ELSE [k EXCEPT !.c = [x \in DOMAIN @ |-> Mn(@[x], k.d)]]
Sum(k) == FoldFunction(Plus, 0, k.c)
Neg(k) == [c |-> [x \in {-y : y \in DOMAIN k.c} |-> k.c[-x]], d |-> Sum(k) - k.d + 1]
IsTriv(k) == k.d <= 0
IsContra(k) == Sum(k) < k.d
SameC(k, m) == k = m \/ (IsTriv(k) /\ IsTriv(m)) \/ Sat(k) = Sat(m)
(* k alone implies m *)
Weaker(k, m) == IsTriv(m) \/ IsContra(k)
    \/ LET loss == FoldFunctionOnSet(Plus, 0, [x \in DOMAIN k.c |-> k.c[x] - (IF x \in DOMAIN m.c THEN Mn(m.c[x], k.c[x]) ELSE 0)], DOMAIN k.c) IN k.d - loss >= m.d
Implied(k, m) == Weaker(k, m) \/ Weaker(Sat(k), Sat(m)) \/ Weaker(Sat(k), m)
(* equivalent to a clause *)
Denotes(k, cl) ==
    LET ls == Rng(cl)
        s == Sat(k) IN
    IF k.d <= 0 \/ \E x \in ls : -x \in ls THEN k.d <= 0 /\ \E x \in ls : -x \in ls
    ELSE DOMAIN s.c = ls /\ \A x \in ls : s.c[x] = s.d
SubstLit(w, x) ==
    LET v == Abs(x) IN
    IF v \notin DOMAIN w THEN [t |-> "l", x |-> x]
    ELSE IF w[v].t = "l" THEN [t |-> "l", x |-> IF x < 0 THEN -w[v].x ELSE w[v].x]
    ELSE IF (w[v].t = "t") = (x > 0) THEN [t |-> "t", x |-> 0] ELSE [t |-> "f", x |-> 0]
Subst(k, w) ==
    FoldSet(LAMBDA x, acc : LET s == SubstLit(w, x) IN
                CASE s.t = "l" -> AddTerm(acc, k.c[x], s.x)
                  [] s.t = "t" -> [acc EXCEPT !.d = @ - k.c[x]]
                  [] OTHER -> acc,
            [c |-> <<>>, d |-> k.d], DOMAIN k.c)
WMap(w) == [v \in {w[i][1] : i \in DOMAIN w} |-> LET i == CHOOSE i \in DOMAIN w : w[i][1] = v IN [t |-> w[i][2], x |-> w[i][3]]]

(* ---- unit propagation -------------------------------------------------- *)
Slack(k, fal) == FoldFunctionOnSet(Plus, 0, k.c, DOMAIN k.c \ fal) - k.d
RECURSIVE Conflict(_, _)
Conflict(S, tr) ==
    LET fal == {-x : x \in tr}
        sl == [k \in S |-> Slack(k, fal)] IN
    IF \E k \in S : sl[k] < 0 THEN TRUE
    ELSE LET new == UNION {{x \in DOMAIN k.c : k.c[x] > sl[k] /\ x \notin tr /\ x \notin fal} : k \in S} IN
         IF new = {} THEN FALSE
         ELSE IF \E x \in new : -x \in new THEN TRUE
         ELSE Conflict(S, tr \cup new)
Live(S) == {k \in S : k.d > 0}
Rup(S, k) == IsTriv(k) \/ Conflict(Live(S) \cup {Neg(k)}, {})
Db(st) == {st.db[i] : i \in DOMAIN st.db}

(* ---- identifiers -------------------------------------------------------- *)
Abid(st, i) == IF i < 0 THEN st.next + i ELSE i
Has(st, i) == Abid(st, i) \in DOMAIN st.db
Get(st, i) == st.db[Abid(st, i)]
New(st, k) == [st EXCEPT !.db = (st.next :> k) @@ @, !.lev = (st.next :> st.lvl) @@ @, !.next = @ + 1, !.ret = st.next]
Gone(st, S) == [st EXCEPT !.db = [i \in DOMAIN @ \ S |-> @[i]], !.lev = [i \in DOMAIN @ \ S |-> @[i]], !.core = @ \ S]

(* ---- derivations in reverse polish notation ---------------------------- *)
RECURSIVE Rpn(_, _, _, _)
Rpn(st, ops, i, stack) ==
    IF i > Len(ops) THEN IF Len(stack) = 1 THEN [ok |-> TRUE, k |-> stack[1], why |-> ""] ELSE [ok |-> FALSE, k |-> Triv, why |-> "derivation leaves no single constraint"]
    ELSE LET o == ops[i] n == Len(stack)
             Top(k) == Rpn(st, ops, i + 1, Append(SubSeq(stack, 1, n - 1), k))
             No(why) == [ok |-> FALSE, k |-> Triv, why |-> why] IN
    CASE o[1] = "id" -> IF Has(st, o[2]) THEN Rpn(st, ops, i + 1, Append(stack, Get(st, o[2]))) ELSE No("derivation from a constraint that does not exist")
      [] o[1] = "ax" -> Rpn(st, ops, i + 1, Append(stack, [c |-> (o[2] :> 1), d |-> 0]))
      [] o[1] = "+" -> IF n < 2 THEN No("nothing to add") ELSE Rpn(st, ops, i + 1, Append(SubSeq(stack, 1, n - 2), Add(stack[n - 1], stack[n])))
      [] o[1] = "*" -> IF n < 1 THEN No("nothing to multiply") ELSE Top(Mul(stack[n], o[2]))
      [] o[1] = "d" -> IF n < 1 THEN No("nothing to divide") ELSE Top(Div(stack[n], o[2]))
      [] o[1] = "s" -> IF n < 1 THEN No("nothing to saturate") ELSE Top(Sat(stack[n]))
      [] OTHER -> No("weakening without a variable")
(* the expression a derivation was asked for as; <<>>: empty *)
RECURSIVE Expr(_, _)
Expr(st, x) ==
    CASE x[1] = "id" -> IF Has(st, x[2]) THEN <<Get(st, x[2])>> ELSE <<>>
      [] x[1] = "ax" -> <<[c |-> (x[2] :> 1), d |-> 0]>>
      [] x[1] = "empty" -> <<>>
      [] x[1] = "weak" -> Expr(st, x[2])
      [] x[1] = "add" -> LET a == Expr(st, x[2]) b == Expr(st, x[3]) IN
                         IF a = <<>> THEN b ELSE IF b = <<>> THEN a ELSE <<Add(a[1], b[1])>>
      [] x[1] = "mul" -> LET a == Expr(st, x[2]) IN IF a = <<>> \/ x[3] = 0 THEN <<>> ELSE <<Mul(a[1], x[3])>>
      [] x[1] = "div" -> LET a == Expr(st, x[2]) IN IF a = <<>> THEN <<>> ELSE <<Div(a[1], x[3])>>
      [] x[1] = "sat" -> LET a == Expr(st, x[2]) IN IF a = <<>> THEN <<>> ELSE <<Sat(a[1])>>

(* ---- rules --------------------------------------------------------------*)
StepPol(st, ev) ==
    LET r == Rpn(st, ev.ops, 1, <<>>) IN IF r.ok THEN Ok(New(st, r.k)) ELSE Bad(st, r.why)
StepRup(st, ev) ==
    LET k == NormC(ev.c)
        S == IF ev.h = <<>> THEN Db(st) ELSE {Get(st, ev.h[i]) : i \in DOMAIN ev.h} IN
    IF \E i \in DOMAIN ev.h : ~Has(st, ev.h[i]) THEN Bad(st, "hint to a constraint that does not exist")
    ELSE IF st.judge = 1 /\ ~Rup(S, k) THEN Bad(st, "constraint does not follow by unit propagation")
    ELSE Ok(New(st, k))
(* identifiers used up inside a subproof *)
GoalIds(g) == IF g.g = "-" THEN 1 ELSE 1 + Len(g.ders)
SubIds(sub) == FoldLeft(LAMBDA n, g : n + GoalIds(g), 0, sub)
StepRed(st, ev) ==
    LET k == NormC(ev.c)
        w == WMap(ev.w)
        S == Db(st) \cup {Neg(k)}
        touched == {m \in Db(st) : \E x \in DOMAIN m.c : Abs(x) \in DOMAIN w}
        fine(m) == LET g == Subst(m, w) IN IsTriv(g) \/ g \in S \/ Implied(Neg(k), g) \/ Rup(S, g) IN
    IF ev.begin = 1 THEN
        IF st.judge = 1 THEN Bad(st, "subproof outside the specification")
        ELSE Ok(New([st EXCEPT !.next = @ + 1 + SubIds(ev.sub)], k))
    ELSE IF st.judge = 0 THEN Ok(New(st, k))
    ELSE IF ~fine(k) THEN Bad(st, "redundant constraint: does not hold under its witness")
    ELSE IF \E m \in touched : ~fine(m) THEN Bad(st, "redundant constraint: witness breaks another constraint")
    ELSE Ok(New(st, k))
StepEq(st, ev, add) ==
    LET k == NormC(ev.c)
        good(m) == IF ev.r \in {"e", "ea"} THEN SameC(m, k) ELSE Implied(m, k)
        r == IF add THEN Ok(New(st, k)) ELSE Ok(st) IN
    IF st.judge = 0 THEN r
    ELSE IF ev.id # 0 /\ ~Has(st, ev.id) THEN Bad(st, "compared with a constraint that does not exist")
    ELSE IF ev.id # 0 /\ ~good(Get(st, ev.id)) THEN Bad(st, "constraint is not the one it is claimed to be")
    ELSE IF ev.id = 0 /\ ~(\E m \in Db(st) : good(m)) THEN Bad(st, "constraint is not in the proof")
    ELSE r
IdSet(st, ids) == {Abid(st, ids[i]) : i \in DOMAIN ids}
(* lo and hi of a range as asked for, as a set of identifiers *)
Lo(st, b) == CASE b[1] = "i" -> Abid(st, b[2]) [] b[1] = "e" -> Abid(st, b[2]) + 1 [] OTHER -> 1
Hi(st, b) == CASE b[1] = "i" -> Abid(st, b[2]) + 1 [] b[1] = "e" -> Abid(st, b[2]) [] OTHER -> st.next
StepDel(st, S, ev) ==
    IF st.judge = 1 /\ ~(S \subseteq DOMAIN st.db) THEN Bad(st, "deleted constraint does not exist")
    ELSE IF st.judge = 1 /\ ev.r = "deld" /\ S \cap st.core # {} THEN Bad(st, "core constraint deleted as derived")
    ELSE IF st.judge = 1 /\ ev.r = "delc" /\ ~(S \subseteq st.core) THEN Bad(st, "derived constraint deleted as core")
    ELSE IF ev.r = "del" /\ ev.begin = 1 THEN Ok(Gone([st EXCEPT !.next = @ + 1 + SubIds(ev.sub)], S))
    ELSE Ok(Gone(st, S))
StepCore(st, S) ==
    IF st.judge = 1 /\ ~(S \subseteq DOMAIN st.db) THEN Bad(st, "moved constraint does not exist")
    ELSE Ok([st EXCEPT !.core = @ \cup (S \cap DOMAIN st.db)])
StepSol(st, ev) ==
    LET ls == Rng(ev.lits) IN
    CASE ev.r = "sol" -> Ok(st)
      [] ev.r = "solx" -> Ok(New(st, [c |-> [x \in {-y : y \in ls} |-> 1], d |-> 1]))
      [] OTHER -> Ok(New(st, Triv))
StepObju(st, ev) ==
    IF st.opt # 1 THEN Bad(st, "objective of a decision problem updated")
    ELSE IF ev.begin = 1 THEN Ok([st EXCEPT !.next = @ + SubIds(ev.sub)]) ELSE Ok(st)
StepConcl(st, ev) ==
    IF st.phase # "output" THEN Bad(st, "conclusion out of place")
    ELSE IF st.judge = 1 /\ ev.k # "NONE" THEN Bad(st, "conclusion was not asked for")
    ELSE Ok([st EXCEPT !.phase = "concl"])

Rule(st, ev) ==
    CASE ev.r = "hdr" -> IF st.phase = "start" THEN Ok([st EXCEPT !.phase = "hdr"]) ELSE Bad(st, "header inside the proof")
      [] ev.r = "f" -> IF st.phase \notin {"hdr", "rules"} THEN Bad(st, "proof does not start with its header")
                       ELSE IF st.phase = "hdr" /\ ev.n # st.n THEN Bad(st, "number of input constraints is wrong")
                       ELSE Ok([st EXCEPT !.phase = "rules"])
      [] ev.r = "output" -> IF st.phase = "rules" THEN Ok([st EXCEPT !.phase = "output"]) ELSE Bad(st, "output section out of place")
      [] ev.r = "concl" -> StepConcl(st, ev)
      [] ev.r = "end" -> IF st.phase = "concl" THEN Ok([st EXCEPT !.phase = "end"]) ELSE Bad(st, "end out of place")
      [] st.phase # "rules" -> Bad(st, "rule outside the proof")
      [] ev.r = "bad" -> Bad(st, "not a rule: " \o ev.text)
      [] ev.r = "pol" -> StepPol(st, ev)
      [] ev.r = "rup" -> StepRup(st, ev)
      [] ev.r \in {"red", "dom"} -> StepRed(st, ev)
      [] ev.r \in {"e", "i"} -> StepEq(st, ev, FALSE)
      [] ev.r \in {"ea", "ia"} -> StepEq(st, ev, TRUE)
      [] ev.r \in {"del", "delc", "deld"} -> StepDel(st, IdSet(st, ev.ids), ev)
      [] ev.r = "delr" -> StepDel(st, {i \in DOMAIN st.db : i >= Abid(st, ev.a) /\ i < Abid(st, ev.b)}, ev)
      [] ev.r = "delspec" -> Ok(Gone(st, {i \in DOMAIN st.db : SameC(st.db[i], NormC(ev.c))}))
      [] ev.r = "core" -> StepCore(st, IdSet(st, ev.ids))
      [] ev.r = "corer" -> StepCore(st, {i \in DOMAIN st.db : i >= Abid(st, ev.a) /\ i < Abid(st, ev.b)})
      [] ev.r \in {"sol", "solx", "soli"} -> StepSol(st, ev)
      [] ev.r = "obju" -> StepObju(st, ev)
      [] ev.r = "eobj" -> IF st.opt = 1 THEN Ok(st) ELSE Bad(st, "objective of a decision problem compared")
      [] ev.r = "lvl" -> Ok([st EXCEPT !.lvl = ev.n])
      [] ev.r = "wipe" -> Ok(Gone(st, {i \in DOMAIN st.lev : st.lev[i] >= ev.n}))
      [] ev.r \in {"s2c", "order", "load"} -> Ok(st)
      [] OTHER -> Bad(st, "rule outside the specification")

(* ---- was this rule asked for? ------------------------------------------ *)
EqC(a, b) == NormC(a) = NormC(b)
EqO(a, b) == LET x == Norm(a.t, -a.b) y == Norm(b.t, -b.b) IN x = y
EqDer(st, w, l) == w.d = l.d /\ IF w.d = "rup" THEN EqC(w.c, l.c) /\ w.h = l.h
                                ELSE LET r == Rpn([st EXCEPT !.next = st.next], l.ops, 1, <<>>) IN r.ok => <<r.k>> = Expr(st, w.x)
EqSub(st, w, l) == Len(w) = Len(l) /\ \A i \in DOMAIN w : w[i].g = l[i].g /\ w[i].n = l[i].n /\ Len(w[i].ders) = Len(l[i].ders)
                       /\ \A j \in DOMAIN w[i].ders : EqDer(st, w[i].ders[j], l[i].ders[j])
EqIds(st, w, l) == [i \in DOMAIN w |-> Abid(st, w[i])] = [i \in DOMAIN l |-> Abid(st, l[i])]
EqConcl(st, w, l) ==
    /\ w.k = l.k
    /\ (w.k = "UNSAT" => (w.id = 0) = (l.id = 0) /\ Abid(st, w.id) = Abid(st, l.id))
    /\ (w.k = "SAT" => w.lits = l.lits)
    /\ (w.k = "BOUNDS" => w.lb = l.lb /\ w.ub = l.ub /\ w.lits = l.lits /\ (w.id = 0) = (l.id = 0) /\ Abid(st, w.id) = Abid(st, l.id))
Asked(st, w, l) ==
    w.r = l.r /\
    CASE w.r = "pol" -> LET r == Rpn(st, l.ops, 1, <<>>) IN r.ok /\ <<r.k>> = Expr(st, w.x)
      [] w.r = "rup" -> EqC(w.c, l.c) /\ EqIds(st, w.h, l.h)
      [] w.r \in {"red", "dom"} -> EqC(w.c, l.c) /\ w.w = l.w /\ EqSub(st, w.sub, l.sub)
      [] w.r \in {"e", "ea", "i", "ia"} -> EqC(w.c, l.c) /\ (w.id = 0) = (l.id = 0) /\ Abid(st, w.id) = Abid(st, l.id)
      [] w.r = "del" -> EqIds(st, w.ids, l.ids) /\ EqSub(st, w.sub, l.sub)
      [] w.r \in {"delc", "deld", "core"} -> EqIds(st, w.ids, l.ids)
      [] w.r \in {"delr", "corer"} -> Lo(st, w.a) = Abid(st, l.a) /\ Hi(st, w.b) = Abid(st, l.b)
      [] w.r = "delspec" -> EqC(w.c, l.c)
      [] w.r \in {"sol", "solx", "soli"} -> w.lits = l.lits
      [] w.r = "obju" -> w.k = l.k /\ EqO(w.o, l.o) /\ EqSub(st, w.sub, l.sub)
      [] w.r = "eobj" -> EqO(w.o, l.o)
      [] w.r \in {"lvl", "wipe", "f"} -> w.n = l.n
      [] w.r = "s2c" -> w.v = l.v
      [] w.r = "load" -> w.name = l.name /\ w.vars = l.vars
      [] w.r = "order" -> /\ w.name = l.name /\ Rng(w.left) = Rng(l.left) /\ Rng(w.right) = Rng(l.right) /\ Rng(w.fresh) = Rng(l.fresh)
                          /\ Len(l.left) = Len(w.left)
                          /\ Len(w.def) = Len(l.def) /\ \A i \in DOMAIN w.def : EqC(w.def[i], l.def[i])
                          /\ EqSub(st, w.trans, l.trans) /\ w.hasrefl = l.hasrefl /\ EqSub(st, w.refl, l.refl)
(* nothing is written for these *)
Silent(w) == w.r \in {"comment", "newpv", "defconcl", "drop", "conclude"}
(* what the end of the proof has to say *)
EndOk(st, l) ==
    CASE l.r = "output" -> l.v = st.want.out
      [] l.r = "concl" -> EqConcl(st, st.want.concl, l)
      [] OTHER -> l.r = "end"

StepLine(st, ev) ==
    IF st.judge = 1 THEN Rule(st, ev)
    ELSE IF ev.r \in {"hdr", "bad"} \/ (st.phase = "hdr" /\ ev.r = "f") THEN Rule(st, ev)
    ELSE IF st.call = <<>> THEN Bad(st, "rule nobody asked for")
    ELSE IF st.call[1].r \in {"drop", "conclude"} THEN IF EndOk(st, ev) THEN Rule(st, ev) ELSE Bad(st, "end of the proof is not what was asked for")
    ELSE IF ev.r = "pol" /\ ~Rpn(st, ev.ops, 1, <<>>).ok THEN Bad(st, Rpn(st, ev.ops, 1, <<>>).why)
    ELSE IF ~Asked(st, st.call[1], ev) THEN Bad(st, "rule is not what was asked for: " \o ev.r)
    ELSE LET r == Rule([st EXCEPT !.call = <<>>, !.ret = 0], ev) IN r
StepCall(st, ev) ==
    LET w == ev.want IN
    CASE w.r = "defconcl" -> Ok([st EXCEPT !.call = <<w>>, !.ret = 0, !.want = [out |-> w.out, concl |-> w.concl]])
      [] w.r = "conclude" -> Ok([st EXCEPT !.call = <<w>>, !.ret = 0, !.want = [out |-> w.out, concl |-> w.concl]])
      [] OTHER -> Ok([st EXCEPT !.call = <<w>>, !.ret = 0])
StepRet(st, ev) ==
    IF ev.r # "ok" THEN Bad(st, "proof writer: " \o ev.r)
    ELSE IF st.phase = "end" THEN Ok([st EXCEPT !.call = <<>>])
    ELSE IF st.call # <<>> /\ ~Silent(st.call[1]) THEN Bad(st, "nothing was written")
    ELSE IF ev.id # st.ret THEN Bad(st, "identifier returned is not the one of the constraint")
    ELSE IF ev.nid # st.next THEN Bad(st, "next identifier is wrong")
    ELSE IF ev.fid # st.n + 1 THEN Bad(st, "first identifier of the proof is wrong")
    ELSE Ok([st EXCEPT !.call = <<>>, !.ret = 0])

StepClaim(st, ev) ==
    IF ev.id \notin DOMAIN st.db THEN Bad(st, "clause with an identifier that does not exist")
    ELSE IF ~Denotes(st.db[ev.id], ev.cl) THEN Bad(st, "identifier does not denote the clause")
    ELSE Ok(st)
StepOp(st, ev) ==
    IF ev.r = "unsat" /\ ~(IsContra(st.db[ev.cid]) \/ (ev.eq = 1 /\ IsContra(st.db[ev.cid + 1]))) THEN Bad(st, "satisfiable constraint refused")
    ELSE IF ev.r \notin {"ok", "oom", "unsat"} THEN Bad(st, "certified " \o ev.op \o ": " \o ev.r)
    ELSE IF ev.nid # st.next THEN Bad(st, "next identifier is wrong")
    ELSE Ok(st)

NoConcl == [out |-> "NONE", concl |-> [k |-> "NONE", id |-> 0, lits |-> <<>>, lb |-> 0, ub |-> 0]]
PrStep(st, ev) ==
    CASE ev.e = "new" ->
            Ok([n |-> ev.n, judge |-> ev.judge, opt |-> ev.opt, next |-> ev.n + 1, core |-> 1..ev.n, lvl |-> 0,
                db |-> [i \in 1..ev.n |-> NormC(ev.inputs[i])], lev |-> [i \in {} |-> 0], phase |-> "start", ret |-> 0, call |-> <<>>,
                want |-> IF ev.start = <<>> THEN NoConcl ELSE [out |-> ev.start[1].out, concl |-> ev.start[1].concl]])
      [] ev.e = "l" -> StepLine(st, ev)
      [] ev.e = "claim" -> StepClaim(st, ev)
      [] ev.e = "op" -> StepOp(st, ev)
      [] ev.e = "call" -> StepCall(st, ev)
      [] ev.e = "ret" -> StepRet(st, ev)
      [] ev.e = "done" -> IF st.phase = "end" THEN Ok(st) ELSE Bad(st, "proof is not concluded")
      [] OTHER -> Bad(st, "event outside the specification")
=============================================================================
