------------------------------ MODULE Tracer ------------------------------
(* The proof tracing interface of the CaDiCaL solver and the proof files it *)
(* writes. The specification keeps what the user of the solver asked for    *)
(* and, per connected tracer, a clausal proof checker: a reported proof     *)
(* must be about exactly the clauses and assumptions of the user, every     *)
(* derivation must be a (hinted) reverse unit propagation, every deletion   *)
(* must name a live clause, and the conclusion must be what the proof       *)
(* derived and what the call returned.                                      *)
(*  u     user's clauses (sets of literals)                                 *)
(*  asm   assumptions of the running call, tmp the temporary clause         *)
(*  cur   the running call                                                  *)
(*  slv   result of the last call that searched                             *)
(*  t     per tracer: live clauses act, remembered clauses weak, assumption *)
(*        clauses acl, reported assumptions a and constraint k (a set of    *)
(*        sets, empty or one clause), top id, originals of this call o,     *)
(*        reported status st and conclusion co, number of calls n           *)
EXTENDS Integers, Sequences, FiniteSets, TLC
TrBlank == [u |-> {}, asm |-> {}, tmp |-> {}, cur |-> [e |-> "none"], p |-> 1, core |-> {}, t |-> <<>>, conf |-> TRUE]
Ok(st) == [ok |-> TRUE, st |-> st, why |-> ""]
Bad(st, why) == [ok |-> FALSE, st |-> st, why |-> why]
Range(f) == {f[x] : x \in DOMAIN f}
Neg(S) == {-x : x \in S}
Taut(C) == \E x \in C : -x \in C
Consistent(S) == ~Taut(S)
Fresh == [on |-> TRUE, act |-> <<>>, weak |-> <<>>, acl |-> <<>>, a |-> {}, k |-> {}, o |-> 0, st |-> "", co |-> "", ci |-> <<>>, n |-> 0, ants |-> FALSE]
Put(f, id, c) == [x \in DOMAIN f \cup {id} |-> IF x = id THEN c ELSE f[x]]
Del(f, id) == [x \in DOMAIN f \ {id} |-> f[x]]
-----------------------------------------------------------------------------
(* reverse unit propagation; A is the set of literals assigned true *)
RECURSIVE Hinted(_, _, _)
Hinted(cl, A, hs) ==
    IF hs = <<>> THEN FALSE
    ELSE IF Head(hs) \notin DOMAIN cl THEN FALSE
    ELSE LET c == cl[Head(hs)]
             left == c \ Neg(A) IN
         IF left = {} THEN TRUE
         ELSE IF Cardinality(left) = 1 THEN Hinted(cl, A \cup left, Tail(hs))
         ELSE FALSE
RECURSIVE Closure(_, _)
Closure(cs, A) ==
    LET us == {c \in cs : c \cap A = {} /\ Cardinality(c \ Neg(A)) <= 1} IN
    IF \E c \in us : c \subseteq Neg(A) THEN TRUE
    ELSE IF us = {} THEN FALSE
    ELSE LET B == A \cup UNION {c \ Neg(A) : c \in us} IN
         IF Taut(B) THEN TRUE ELSE Closure(cs, B)
\* antecedents are only promised to a tracer that asked for them
Rup(tr, c, hs) == Taut(c) \/ (IF tr.ants THEN Hinted(tr.act @@ tr.acl, Neg(c), hs) ELSE Closure(Range(tr.act), Neg(c)))
-----------------------------------------------------------------------------
Set(st, i, tr) == Ok([st EXCEPT !.t[i] = [tr EXCEPT !.n = @ + 1]])
Known(tr) == DOMAIN tr.act \cup DOMAIN tr.weak \cup DOMAIN tr.acl
Call(st) == st.cur.e
Incremental(st) == st.cur.fmt \in {"idrup", "lidrup"}
\* formats without ids
FreshId(tr, id) == IF id = 0 THEN 100000 + tr.n ELSE id
Searching(st) == Call(st) \in {"u-solve", "u-simplify"}
TOrig(st, ev, i, tr) ==
    LET c == Range(ev.c) IN
    IF ev.rest THEN
        IF ev.id \notin DOMAIN tr.weak THEN Bad(st, "a clause is restored that was never weakened")
        ELSE IF tr.weak[ev.id] # c THEN Bad(st, "the restored clause is not the weakened one")
        ELSE Set(st, i, [tr EXCEPT !.act = Put(@, ev.id, c), !.weak = Del(@, ev.id)])
    ELSE IF Call(st) = "file" /\ Incremental(st) THEN
        LET id == FreshId(tr, ev.id) s == [st EXCEPT !.p = @ + 1, !.u = @ \cup {c}] IN
        IF st.p > Len(st.cur.ops) THEN Bad(st, "the proof contains an original clause that was not added")
        ELSE IF st.cur.ops[st.p].k # "add" \/ Range(st.cur.ops[st.p].c) # c THEN Bad(st, "original clause is not the one being added")
        ELSE IF id \in Known(tr) THEN Bad(st, "clause id is used twice")
        ELSE Set(s, i, [tr EXCEPT !.act = Put(@, id, c)])
    ELSE IF Call(st) = "file" THEN
        IF c \notin st.u THEN Bad(st, "the proof contains an original clause that was not added")
        ELSE Set(st, i, [tr EXCEPT !.act = Put(@, ev.id, c)])
    ELSE IF Call(st) # "u-add" \/ tr.o # 0 \/ c # Range(st.cur.c) \/ ev.red THEN Bad(st, "original clause is not the one being added")
    ELSE IF ev.id \in Known(tr) THEN Bad(st, "clause id is used twice")
    ELSE Set(st, i, [tr EXCEPT !.act = Put(@, ev.id, c), !.o = 1])
TDer(st, ev, i, tr) ==
    LET c == Range(ev.c) id == FreshId(tr, ev.id) IN
    IF id \in Known(tr) THEN Bad(st, "clause id is used twice")
    ELSE IF tr.ants /\ \E x \in Range(ev.ants) : x \notin DOMAIN (tr.act @@ tr.acl) THEN Bad(st, "antecedent of a derived clause is not a live clause")
    ELSE IF tr.ants /\ ev.ants = <<>> /\ ~Taut(c) THEN Bad(st, "derived clause without antecedents")
    ELSE IF ~Rup(tr, c, ev.ants) THEN Bad(st, "derived clause does not follow by unit propagation")
    ELSE Set(st, i, [tr EXCEPT !.act = Put(@, id, c), !.o = IF c = {} THEN 2 ELSE @])
TDel(st, ev, i, tr) ==
    IF ev.id \notin DOMAIN tr.act THEN Bad(st, "deleted clause is not live")
    ELSE IF tr.act[ev.id] # Range(ev.c) THEN Bad(st, "deleted clause has other literals")
    ELSE Set(st, i, [tr EXCEPT !.act = Del(@, ev.id)])
TWeak(st, ev, i, tr) ==
    IF ev.id \notin DOMAIN tr.act THEN Bad(st, "weakened clause is not live")
    ELSE IF tr.act[ev.id] # Range(ev.c) THEN Bad(st, "weakened clause has other literals")
    ELSE Set(st, i, [tr EXCEPT !.weak = Put(@, ev.id, Range(ev.c))])
\* the user's clauses whose meaning the solver must answer for
TQuery(st, ev, i, tr) ==
    IF ~Searching(st) THEN Bad(st, "a query without a call")
    ELSE IF tr.a # Range(st.cur.a) THEN Bad(st, "the reported assumptions are not those of the call")
    ELSE IF tr.k # st.tmp THEN Bad(st, "the reported constraint is not the temporary clause")
    ELSE Set(st, i, [tr EXCEPT !.st = "", !.co = "", !.ci = <<>>])
Failed(st, tr) == Neg(tr.a) \cup Neg(UNION tr.k)
TAsmCl(st, ev, i, tr) ==
    LET c == Range(ev.c) IN
    IF ~(c \subseteq Failed(st, tr)) THEN Bad(st, "assumption clause does not consist of negated assumptions")
    ELSE IF ev.id \in Known(tr) THEN Bad(st, "clause id is used twice")
    ELSE IF tr.ants /\ ev.ants = <<>> /\ ~Taut(c) THEN Bad(st, "assumption clause without antecedents")
    ELSE IF ~Rup(tr, c, ev.ants) THEN Bad(st, "assumption clause does not follow by unit propagation")
    ELSE Set(st, i, [tr EXCEPT !.acl = Put(@, ev.id, c)])
TStatus(st, ev, i, tr) ==
    IF ~Searching(st) THEN Bad(st, "a status without a call")
    ELSE IF ev.id # 0 /\ (ev.r # "unsat" \/ ev.id \notin DOMAIN tr.act \/ tr.act[ev.id] # {}) THEN Bad(st, "the reported id is not an empty clause")
    ELSE Set(st, i, [tr EXCEPT !.st = ev.r])
TUnsat(st, ev, i, tr) ==
    LET cs == {(tr.act @@ tr.acl)[x] : x \in Range(ev.ids) \cap DOMAIN (tr.act @@ tr.acl)} IN
    IF \E x \in Range(ev.ids) : x \notin DOMAIN (tr.act @@ tr.acl) THEN Bad(st, "the conclusion names an unknown clause")
    ELSE IF tr.st # "unsat" THEN Bad(st, "unsatisfiability is concluded but was not reported")
    ELSE IF ev.k = "conflict" /\ cs # {{}} THEN Bad(st, "the conclusion is not the empty clause")
    ELSE IF ev.k = "assumptions" /\ (Cardinality(cs) # 1 \/ ~(\A c \in cs : c \subseteq Neg(tr.a))) THEN Bad(st, "the conclusion is not a clause of negated assumptions")
    ELSE IF ev.k = "constraint" /\ (tr.k = {} \/ ~Closure(cs \cup tr.k, tr.a)) THEN Bad(st, "the conclusion does not refute the constraint")
    ELSE Set(st, i, [tr EXCEPT !.co = ev.k, !.ci = cs])
TSat(st, ev, i, tr) ==
    LET m == Range(ev.m) IN
    IF tr.st # "sat" THEN Bad(st, "satisfiability is concluded but was not reported")
    ELSE IF ~Consistent(m) THEN Bad(st, "the model is contradictory")
    ELSE IF \E c \in st.u \cup tr.k : c \cap m = {} THEN Bad(st, "the model falsifies a clause")
    ELSE IF ~(tr.a \subseteq m) THEN Bad(st, "the model falsifies an assumption")
    ELSE Set(st, i, [tr EXCEPT !.co = "sat"])
TUnk(st, ev, i, tr) ==
    IF tr.st # "int" THEN Bad(st, "an interruption is concluded but was not reported")
    ELSE IF ~Consistent(Range(ev.m)) THEN Bad(st, "the trail is contradictory")
    ELSE Set(st, i, [tr EXCEPT !.co = "unknown"])
TStep(st, ev) ==
    LET i == ev.t tr == st.t[i] IN
    IF ~tr.on THEN Bad(st, "a disconnected tracer is notified")
    ELSE CASE ev.e = "orig" -> TOrig(st, ev, i, tr)
      [] ev.e = "der" -> TDer(st, ev, i, tr)
      [] ev.e = "del" -> TDel(st, ev, i, tr)
      [] ev.e = "weak" -> TWeak(st, ev, i, tr)
      [] ev.e = "strong" -> IF ev.id \in DOMAIN tr.act THEN Set(st, i, tr) ELSE Bad(st, "strengthened clause is not live")
      [] ev.e = "final" ->
            IF ev.id \in DOMAIN tr.act /\ tr.act[ev.id] = Range(ev.c) THEN Set(st, i, tr) ELSE Bad(st, "finalized clause is not live")
      [] ev.e = "begin" -> Set(st, i, tr)
      [] ev.e = "equiv" -> Set(st, i, tr)
      [] ev.e = "reset" -> Set(st, i, [tr EXCEPT !.a = {}, !.k = {}])
      [] ev.e = "asm" -> IF Searching(st) /\ ev.l \in Range(st.cur.a) THEN Set(st, i, [tr EXCEPT !.a = @ \cup {ev.l}])
                         ELSE Bad(st, "a literal is assumed that is no assumption of the call")
      [] ev.e = "constr" -> IF Call(st) = "u-tmp" /\ Range(ev.c) = Range(st.cur.c) THEN Set(st, i, [tr EXCEPT !.k = {Range(ev.c)}])
                            ELSE Bad(st, "the constraint is not the temporary clause")
      [] ev.e = "query" -> TQuery(st, ev, i, tr)
      [] ev.e = "asmcl" -> TAsmCl(st, ev, i, tr)
      [] ev.e = "status" -> TStatus(st, ev, i, tr)
      [] ev.e = "cunsat" -> TUnsat(st, ev, i, tr)
      [] ev.e = "csat" -> TSat(st, ev, i, tr)
      [] ev.e = "cunk" -> TUnk(st, ev, i, tr)
      [] OTHER -> Bad(st, ev.e)
-----------------------------------------------------------------------------
(* user calls *)
On(st) == {i \in DOMAIN st.t : st.t[i].on}
Begin(st, ev) ==
    LET s == [st EXCEPT !.cur = ev, !.t = [i \in DOMAIN st.t |-> [st.t[i] EXCEPT !.o = 0]]] IN
    CASE ev.e = "u-add" -> Ok([s EXCEPT !.u = @ \cup {Range(ev.c)}])
      [] ev.e = "u-tmp" -> Ok([s EXCEPT !.tmp = {Range(ev.c)}])
      [] ev.e = "u-connect" -> Ok(s)
      [] OTHER -> Ok(s)
Concl(r) == CASE r = "sat" -> {"sat"} [] r = "unsat" -> {"conflict", "assumptions", "constraint"} [] OTHER -> {"unknown", ""}
RetSolve(st, ev) ==
    LET r == ev.v.r IN
    IF \E i \in On(st) : st.t[i].st # r THEN Bad(st, "the reported status is not the result of the call")
    ELSE IF \E i \in On(st) : st.t[i].co \notin Concl(r) THEN Bad(st, "the call was not concluded")
    ELSE IF \E i \in On(st) : st.t[i].co = "assumptions" /\ st.t[i].ci # {Range(ev.v.core)} THEN Bad(st, "the core is not the concluded assumption clause")
    ELSE Ok([st EXCEPT !.tmp = {}])
Ret(st, ev) ==
    CASE ev.op = "connect" -> Ok([st EXCEPT !.t = Append(@, [Fresh EXCEPT !.ants = st.cur.ants])])
      [] ev.op = "disconnect" ->
            LET i == st.cur.i + 1 IN
            IF st.cur.wrong THEN
                IF ~ev.v.err THEN Bad(st, "a tracer is disconnected from a solver it is not connected to")
                ELSE IF ~ev.v.alive THEN Bad(st, "a connected tracer is dropped")
                ELSE Ok(st)
            ELSE IF ev.v.err THEN Bad(st, "a connected tracer cannot be disconnected")
            ELSE IF ev.v.t # i \/ ~ev.v.alive THEN Bad(st, "another tracer is returned")
            ELSE Ok([st EXCEPT !.t[i].on = FALSE])
      [] ev.op = "peek" ->
            LET i == st.cur.i + 1 IN
            IF ev.v.t # i \/ ev.v.n # st.t[i].n THEN Bad(st, "the tracer handle refers to another tracer") ELSE Ok([st EXCEPT !.t[i].n = 0])
      [] ev.op = "add" ->
            IF \E i \in On(st) : st.t[i].o = 0 THEN Bad(st, "an added clause is not reported") ELSE Ok(st)
      [] ev.op = "tmp" ->
            IF \E i \in On(st) : st.t[i].k # st.tmp THEN Bad(st, "the temporary clause is not reported") ELSE Ok(st)
      [] ev.op = "solve" -> RetSolve(st, ev)
      [] ev.op = "simplify" -> Ok([st EXCEPT !.tmp = {}])
      [] OTHER -> Ok(st)
FileStart(st, ev) ==
    LET n == Len(ev.cls)
        pos(id) == CHOOSE k \in 1..n : ev.ids[k] = id
        act == IF ev.fmt \in {"frat", "fratd", "idrup", "lidrup"} THEN <<>> ELSE [id \in Range(ev.ids) |-> Range(ev.cls[pos(id)])] IN
    Ok([st EXCEPT !.u = IF ev.fmt \in {"idrup", "lidrup"} THEN {} ELSE {Range(ev.cls[k]) : k \in 1..n}, !.cur = ev, !.core = DOMAIN act,
        !.t = <<[Fresh EXCEPT !.act = act, !.ants = ev.fmt \in {"lrat", "frat", "lidrup"} \/ (ev.fmt = "veripb" /\ ~ev.rup)]>>])
Find(f, ev) == {x \in DOMAIN f : f[x] = Range(ev.c)}
Move(f, g, ids) == [x \in DOMAIN f \cup ids |-> IF x \in ids THEN g[x] ELSE f[x]]
Drop(f, ids) == [x \in DOMAIN f \ ids |-> f[x]]
Asked(st) == st.p <= Len(st.cur.ops) /\ st.cur.ops[st.p].k = "solve"
Advance(st) == [st EXCEPT !.p = @ + 1]
Incr(st, ev) ==
    LET tr == st.t[1] op == st.cur.ops[st.p] IN
    CASE ev.e \in {"fweak", "fweaks"} ->
            LET ids == IF ev.e = "fweaks" THEN Range(ev.ids) ELSE IF Find(tr.act, ev) = {} THEN {0} ELSE {CHOOSE x \in Find(tr.act, ev) : TRUE} IN
            IF ~(ids \subseteq DOMAIN tr.act) THEN Bad(st, "weakened clause is not live")
            ELSE Set(st, 1, [tr EXCEPT !.act = Drop(@, ids), !.weak = Move(@, tr.act, ids)])
      [] ev.e \in {"frest", "frests"} ->
            LET ids == IF ev.e = "frests" THEN Range(ev.ids) ELSE IF Find(tr.weak, ev) = {} THEN {0} ELSE {CHOOSE x \in Find(tr.weak, ev) : TRUE} IN
            IF ~(ids \subseteq DOMAIN tr.weak) THEN Bad(st, "a clause is restored that was never weakened")
            ELSE Set(st, 1, [tr EXCEPT !.weak = Drop(@, ids), !.act = Move(@, tr.weak, ids)])
      [] ~Asked(st) -> Bad(st, "a query without a call")
      [] ev.e = "fquery" -> IF Range(ev.a) # Range(op.a) THEN Bad(st, "the reported assumptions are not those of the call")
                            ELSE Set(st, 1, [tr EXCEPT !.a = Range(ev.a), !.st = "", !.o = 0])
      [] ev.e = "fstatus" -> IF ev.r # op.r THEN Bad(st, "the reported status is not the result of the call") ELSE Set(st, 1, [tr EXCEPT !.st = ev.r])
      [] tr.st = "" -> Bad(st, "a call is concluded without a status")
      [] ev.e = "fmodel" ->
            LET m == Range(ev.m) IN
            IF tr.st # "sat" THEN Bad(st, "satisfiability is concluded but was not reported")
            ELSE IF Taut(m) THEN Bad(st, "the model is contradictory")
            ELSE IF \E c \in st.u : c \cap m = {} THEN Bad(st, "the model falsifies a clause")
            ELSE IF ~(tr.a \subseteq m) THEN Bad(st, "the model falsifies an assumption")
            ELSE Set(Advance(st), 1, tr)
      [] ev.e = "fcore" ->
            LET c == Range(ev.c) IN
            IF tr.st # "unsat" THEN Bad(st, "unsatisfiability is concluded but was not reported")
            ELSE IF c # Neg(Range(op.core)) THEN Bad(st, "the core is not the concluded assumption clause")
            ELSE IF ~Rup(tr, Neg(c), ev.ants) THEN Bad(st, "assumption clause does not follow by unit propagation")
            ELSE Set(Advance(st), 1, tr)
      [] ev.e = "ftrail" -> IF tr.st # "int" THEN Bad(st, "an interruption is concluded but was not reported") ELSE Set(Advance(st), 1, tr)
Veri(st, ev) ==
    LET tr == st.t[1] chk == st.cur.chk IN
    CASE ev.e = "v-end" -> IF ev.r # st.cur.r THEN Bad(st, "the conclusion is not the result of the call")
                           ELSE IF ev.r = "unsat" /\ tr.ants /\ (ev.id \notin DOMAIN tr.act \/ tr.act[ev.id] # {}) THEN Bad(st, "the reported id is not an empty clause")
                           ELSE Ok(st)
      [] ev.e \in {"v-core", "v-delc"} /\ ~chk -> Bad(st, "checked deletion was not requested")
      [] ~tr.ants -> Ok(st)  \* steps have no ids
      [] ev.id \notin DOMAIN tr.act -> Bad(st, "deleted clause is not live")
      [] ev.e = "v-core" -> Ok([st EXCEPT !.core = @ \cup {ev.id}])
      [] ev.e = "v-delc" -> Set(st, 1, [tr EXCEPT !.act = Drop(@, {ev.id})])
      [] OTHER -> IF chk /\ ev.id \in st.core THEN Bad(st, "a core clause is deleted without a check") ELSE Set(st, 1, [tr EXCEPT !.act = Drop(@, {ev.id})])
FileStep(st, ev) ==
    LET tr == st.t[1] IN
    CASE ev.e = "fdel" ->
            LET ids == Find(tr.act, ev) IN
            IF ids = {} THEN Bad(st, "deleted clause is not live")
            ELSE Set(st, 1, [tr EXCEPT !.act = Del(@, CHOOSE x \in ids : TRUE)])
      [] ev.e = "fdels" ->
            IF \E x \in Range(ev.ids) : x \notin DOMAIN tr.act THEN Bad(st, "deleted clause is not live")
            ELSE Set(st, 1, [tr EXCEPT !.act = [x \in DOMAIN tr.act \ Range(ev.ids) |-> tr.act[x]]])
      [] ev.e = "fend" ->
            IF Incremental(st) THEN IF st.p # Len(st.cur.ops) + 1 THEN Bad(st, "the proof file is not complete") ELSE Ok(st)
            ELSE IF st.cur.r = "unsat" /\ tr.o # 2 /\ {} \notin st.u THEN Bad(st, "the proof file does not derive a contradiction")
            ELSE IF st.cur.r # "unsat" /\ tr.o = 2 THEN Bad(st, "the proof file derives a contradiction from a satisfiable formula")
            ELSE Ok(st)
      [] ev.e \in {"fweak", "fweaks", "frest", "frests", "fquery", "fstatus", "fmodel", "ftrail", "fcore"} -> Incr(st, ev)
      [] ev.e \in {"v-end", "v-core", "v-del", "v-delc"} -> Veri(st, ev)
      [] OTHER -> Bad(st, "the proof file is not in the requested format")
TrStep(st, ev) ==
    CASE ev.e = "new" -> Ok(TrBlank)
      [] ev.e = "file" -> FileStart(st, ev)
      [] st.cur.e = "file" /\ ev.e \notin {"orig", "der", "del", "final", "crash", "hang"} -> FileStep(st, ev)
      [] ev.e = "panic" -> Bad(st, ev.op \o ": panic")
      [] ev.e \in {"crash", "hang"} -> Bad(st, ev.e)
      [] ev.e = "ret" -> Ret(st, ev)
      [] ev.e = "end" -> IF \E i \in On(st) : ~ev.alive[i] THEN Bad(st, "a connected tracer is dropped") ELSE Ok(st)
      [] ev.e \in {"u-connect", "u-disconnect", "u-peek", "u-conf", "u-opt", "u-add", "u-tmp", "u-climit", "u-solve", "u-simplify"} -> Begin(st, ev)
      [] ev.t \notin DOMAIN st.t -> Bad(st, "event of an unknown tracer")
      [] OTHER -> TStep(st, ev)
=============================================================================
