------------------------------ MODULE SolvOut ------------------------------
(* Assignments as finite partial maps, the output language of solvers, the  *)
(* external solver as a three-state machine, and the integer encodings of   *)
(* variables and literals.                                                  *)
(* An assignment is a sequence over {"1", "0", "_"}; variables behind its   *)
(* end have no value.                                                       *)
EXTENDS Constr, Big, TLC
SoBlank == [a |-> <<>>, cls |-> <<>>, masks |-> <<>>, ph |-> "none"]
Ok(st) == [ok |-> TRUE, st |-> st, why |-> ""]
Bad(st, why) == [ok |-> FALSE, st |-> st, why |-> why]
-----------------------------------------------------------------------------
(* Partial maps                                                             *)
Val(a, v) == IF v \in DOMAIN a THEN a[v] ELSE "_"
Neg(x) == CASE x = "1" -> "0" [] x = "0" -> "1" [] OTHER -> "_"
LVal(a, l) == IF l > 0 THEN Val(a, l) ELSE Neg(Val(a, -l))
Pad(a, n) == TLCEval([i \in 1..(IF n > Len(a) THEN n ELSE Len(a)) |-> Val(a, i)])
Put(a, v, x) == TLCEval([Pad(a, v) EXCEPT ![v] = x])
PutLit(a, l) == IF l > 0 THEN Put(a, l, "1") ELSE Put(a, -l, "0")
RECURSIVE PutAll(_, _, _)
PutAll(a, ls, i) == IF i > Len(ls) THEN a ELSE LET b == TLCEval(PutLit(a, ls[i])) IN PutAll(b, ls, i + 1)
Cut(a, v) == SubSeq(a, 1, IF v < Len(a) THEN v ELSE Len(a))
Fill(a, x) == [i \in DOMAIN a |-> IF a[i] = "_" THEN x ELSE a[i]]
RECURSIVE Lits(_, _)
Lits(a, i) == IF i > Len(a) THEN <<>>
              ELSE (CASE a[i] = "1" -> <<i>> [] a[i] = "0" -> <<-i>> [] OTHER -> <<>>) \o Lits(a, i + 1)
-----------------------------------------------------------------------------
(* Value lines. A line carries tag (its first character), toks: white-space *)
(* separated pieces behind it, each with an integer reading (int, v), a     *)
(* 0/1 string reading (bits), a pseudo-Boolean literal reading (pb) and     *)
(* whether it contains an x.                                                *)
RECURSIVE Flat(_, _)
Flat(ls, i) == IF i > Len(ls) THEN <<>> ELSE ls[i].toks \o Flat(ls, i + 1)
Bad2 == [k |-> "err", a |-> <<>>]
Loose == [k |-> "loose", a |-> <<>>]
\* the union of literals, unless contradictory
RECURSIVE Union(_, _, _)
Union(a, ls, i) ==
    IF i > Len(ls) THEN [k |-> "ok", a |-> a]
    ELSE IF ls[i] = 0 THEN Union(a, ls, i + 1)
    ELSE IF LVal(a, ls[i]) = "0" THEN Bad2
    ELSE LET b == TLCEval(PutLit(a, ls[i])) IN Union(b, ls, i + 1)
BitLine(l) == Len(l.toks) = 1 /\ l.toks[1].bits # <<>> /\ l.toks[1].bits # <<"0">>
Values(a, ls) ==
    LET ts == Flat(ls, 1) IN
    IF \E i \in DOMAIN ls : ls[i].tag # "v" THEN Bad2
    ELSE IF \E i \in DOMAIN ts : ts[i].x
    THEN IF \E i \in DOMAIN ts : ts[i].loose THEN Loose
         ELSE IF \E i \in DOMAIN ts : ts[i].pb = 0 THEN Bad2
         ELSE Union(a, [i \in DOMAIN ts |-> ts[i].pb], 1)
    ELSE IF ts = <<>> THEN [k |-> "ok", a |-> a]
    ELSE IF Len(ls) = 1 /\ BitLine(ls[1]) THEN IF a = <<>> THEN [k |-> "ok", a |-> ts[1].bits] ELSE Loose
    ELSE IF \A i \in DOMAIN ls : BitLine(ls[i]) THEN Loose
    ELSE IF \E i \in DOMAIN ts : ts[i].loose THEN Loose
    ELSE IF \E i \in DOMAIN ts : ~ts[i].int THEN Bad2
    ELSE Union(a, [i \in DOMAIN ts |-> ts[i].v], 1)
\* a whole output
Status(l) == l.st
Output(ls) ==
    LET sl == SelectSeq(ls, LAMBDA l : l.tag = "s")
        vl == SelectSeq(ls, LAMBDA l : l.tag = "v")
        S == {sl[i].st : i \in DOMAIN sl}
        v == Values(<<>>, vl) IN
    IF S = {} \/ "bad" \in S THEN Bad2
    ELSE IF \E x, y \in S : x # y THEN Bad2
    ELSE IF S = {"SAT"} THEN IF vl = <<>> THEN Bad2 ELSE v
    ELSE IF v.k # "ok" THEN Loose
    ELSE [k |-> CHOOSE x \in S : TRUE, a |-> <<>>]
Same(a, b) == \A i \in 1..(IF Len(a) > Len(b) THEN Len(a) ELSE Len(b)) : Val(a, i) = Val(b, i)
StepOut(st, ev) ==
    LET o == Output(ev.lines) IN
    IF o.k = "loose" THEN Ok(st)
    ELSE IF o.k = "err" THEN
         IF ev.k # "err" THEN Bad(st, "invalid solver output is accepted")
         ELSE IF ev.path # "err" THEN Bad(st, "from_solver_output_path: invalid solver output is accepted")
         ELSE Ok(st)
    ELSE IF ev.k = "err" THEN Bad(st, "valid solver output is rejected")
    ELSE IF (o.k = "ok") # (ev.k = "SAT") \/ (o.k # "ok" /\ ev.k # o.k) THEN Bad(st, "wrong verdict is read")
    ELSE IF o.k = "ok" /\ ~Same(o.a, ev.a) THEN Bad(st, "wrong assignment is read")
    ELSE IF (ev.path = "SAT") # (o.k = "ok") THEN Bad(st, "from_solver_output_path: wrong verdict")
    ELSE IF o.k = "ok" /\ ~Same(o.a, ev.pa) THEN Bad(st, "from_solver_output_path: wrong assignment")
    ELSE Ok(st)
-----------------------------------------------------------------------------
(* Operations on an assignment                                              *)
After(a, ev) ==
    CASE ev.op = "assign_var" -> Put(a, ev.v, ev.x)
      [] ev.op = "assign_lit" -> PutLit(a, ev.l)
      [] ev.op = "truncate" -> Cut(a, ev.v)
      [] ev.op = "replace" -> Fill(a, ev.x)
      [] ev.op = "set" -> IF ev.v \in DOMAIN a THEN [a EXCEPT ![ev.v] = ev.x] ELSE a
      [] ev.op = "from_lits" -> PutAll(<<>>, ev.ls, 1)
      [] ev.op = "from_vals" -> ev.xs
      [] ev.op = "clone" -> a
StepAsg(st, ev) ==
    LET vl == ev.op = "vline"
        r == IF vl THEN Values(st.a, ev.lines) ELSE [k |-> "ok", a |-> After(st.a, ev)]
        a == IF r.k = "ok" THEN r.a ELSE ev.a
        n == [st EXCEPT !.a = a] IN
    IF vl /\ r.k = "err" /\ ev.ok THEN Bad(st, "malformed or contradictory value line is accepted")
    ELSE IF vl /\ r.k = "ok" /\ ~ev.ok THEN Bad(st, "valid value line is rejected")
    ELSE IF ~Same(a, ev.a) THEN Bad(n, ev.op \o ": wrong assignment")
    ELSE IF Len(ev.a) # Len(a) /\ ~vl THEN Bad(n, ev.op \o ": wrong length")
    ELSE IF ev.len # Len(ev.a) \/ ev.empty # (ev.a = <<>>) \/ ev.max # Len(ev.a) THEN Bad(n, "len, is_empty or max_var is wrong")
    ELSE IF ev.disp # ev.a \/ ev.dbg # ev.a THEN Bad(n, "printed assignment is wrong")
    ELSE IF \E l \in DOMAIN ev.vals : ev.vals[l] # Val(a, l) \/ ev.pos[l] # Val(a, l) \/ ev.neg[l] # Neg(Val(a, l))
         THEN Bad(n, "var_value or lit_value is wrong")
    ELSE IF \E i \in DOMAIN ev.iters : ev.iters[i] # Lits(a, 1) THEN Bad(n, "iteration over the assigned literals is wrong")
    ELSE Ok([st EXCEPT !.a = IF r.k = "ok" /\ ~vl THEN a ELSE ev.a])
StepTv(st, ev) ==
    IF ev.not # Neg(ev.x) \/ ev.neg # Neg(ev.x) \/ ev.disp # ev.x \/ ev.dbg # ev.x
       \/ ev.dt # (IF ev.x = "_" THEN TRUE ELSE ev.x = "1") \/ ev.df # (ev.x = "1")
       \/ ev.back # ev.x
    THEN Bad(st, "operations on a ternary value are wrong") ELSE Ok(st)
-----------------------------------------------------------------------------
(* Integer encodings: index i (0-based), maximum 2^31 - 1; numbers as pairs *)
MaxIdx == <<2, 147483647>>
Twice(a) == BAdd(a, a)
One == <<0, 1>>
\* result r: the index and sign of the literal or variable, or failure
StepConv(st, ev) ==
    LET fits == BLe(ev.i, MaxIdx)
        want ==
          CASE ev.op \in {"var", "lit"} -> [ok |-> fits, i |-> ev.i, neg |-> ev.neg]
            [] ev.op = "from_ipasir" -> IF ev.i = B0 THEN [ok |-> FALSE, i |-> B0, neg |-> FALSE] ELSE [ok |-> TRUE, i |-> BSub(ev.i, One), neg |-> ev.neg]
            [] ev.op = "add" -> [ok |-> BLe(BAdd(ev.i, ev.n), MaxIdx), i |-> BAdd(ev.i, ev.n), neg |-> ev.neg]
            [] ev.op = "sub" -> [ok |-> BLe(ev.n, ev.i), i |-> IF BLe(ev.n, ev.i) THEN BSub(ev.i, ev.n) ELSE B0, neg |-> ev.neg]
            [] ev.op \in {"not", "neg"} -> [ok |-> TRUE, i |-> ev.i, neg |-> ~ev.neg]
            [] ev.op \in {"copy", "serde"} -> [ok |-> TRUE, i |-> ev.i, neg |-> ev.neg]
        \* to_ipasir: one-based, must be at most 2^31 - 1
        ip == BAdd(want.i, One) IN
    IF ev.ok # want.ok THEN Bad(st, ev.how \o (IF want.ok THEN ": valid index is refused" ELSE ": invalid index is accepted"))
    ELSE IF ~want.ok THEN Ok(st)
    ELSE IF ev.ri # want.i \/ ev.rneg # want.neg THEN Bad(st, ev.how \o ": wrong variable or sign")
    ELSE IF ev.lidx # BAdd(Twice(want.i), IF want.neg THEN One ELSE B0) THEN Bad(st, ev.how \o ": wrong literal index")
    ELSE IF ev.ipok # BLe(ip, MaxIdx) THEN Bad(st, ev.how \o ": conversion to IPASIR accepts or refuses wrongly")
    ELSE IF ev.ipok /\ (ev.ip # ip \/ ev.ipneg # want.neg) THEN Bad(st, ev.how \o ": wrong IPASIR literal")
    ELSE IF ev.disp # ev.want THEN Bad(st, ev.how \o ": printed wrongly")
    ELSE Ok(st)
-----------------------------------------------------------------------------
(* The external solver: Input -> Sat | Unsat | Unknown                      *)
ClTrue(mask, c) == \E i \in DOMAIN c : LitTrue(mask, c[i])
Models(st) == {m \in DOMAIN st.masks : \A i \in DOMAIN st.cls : ClTrue(st.masks[m], st.cls[i])}
\* how the fake solver behaves: it answers, gives up, or misbehaves
StepExt(st, ev) ==
    CASE ev.op = "add" ->
          IF st.ph = "Input" THEN IF ev.r = "ok" THEN Ok([st EXCEPT !.cls = Append(@, ev.c)]) ELSE Bad(st, "external: clause refused")
          ELSE IF ev.r = st.ph THEN Ok(st) ELSE Bad(st, "external: adding a clause after solving must be a state error naming the state")
      [] ev.op = "solve" ->
          IF st.ph # "Input" THEN IF ev.r = st.ph THEN Ok(st) ELSE Bad(st, "external: solving again must be a state error naming the state")
          ELSE LET n(x) == [st EXCEPT !.ph = x] IN
          CASE ev.mode = "answer" ->
                IF ev.r = "sat" THEN IF Models(st) = {} THEN Bad(st, "external: unsatisfiable clauses reported satisfiable") ELSE Ok(n("Sat"))
                ELSE IF ev.r = "unsat" THEN IF Models(st) # {} THEN Bad(st, "external: satisfiable clauses reported unsatisfiable") ELSE Ok(n("Unsat"))
                ELSE Bad(st, "external: no verdict although the solver gave one")
            [] ev.mode = "unknown" -> IF ev.r = "interrupted" THEN Ok(n("Unknown")) ELSE Bad(st, "external: verdict although the solver gave none")
            [] OTHER -> IF ev.r = "err" THEN Ok(n("Unknown")) ELSE Bad(st, "external: misbehaving solver is trusted")
      [] ev.op = "sol" ->
          IF st.ph # "Sat" THEN IF ev.r = st.ph THEN Ok(st) ELSE Bad(st, "external: solution outside of the satisfiable state must be a state error naming the state")
          ELSE IF ev.r # "ok" THEN Bad(st, "external: no solution")
          ELSE IF \E i \in DOMAIN ev.a : i > ev.high THEN Bad(st, "external: solution beyond the requested variable")
          ELSE IF \E i \in 1..ev.high : Val(ev.a, i) # Val(ev.full, i) THEN Bad(st, "external: solution and values disagree")
          ELSE IF ~\E m \in Models(st) : \A i \in DOMAIN st.masks[m] : Val(ev.full, i) # "_" => (Val(ev.full, i) = "1") = (st.masks[m][i] = 1)
               THEN Bad(st, "external: solution is not part of a model")
          ELSE IF \E i \in DOMAIN st.cls : ~\E j \in DOMAIN st.cls[i] : LVal(ev.full, st.cls[i][j]) = "1" THEN Bad(st, "external: clause not satisfied")
          ELSE Ok(st)
      [] ev.op = "val" -> IF ev.r = (IF st.ph = "Sat" THEN "ok" ELSE st.ph) THEN Ok(st) ELSE Bad(st, "external: value outside of the satisfiable state must be a state error naming the state")
SoStep(st, ev) ==
    CASE ev.e = "new" -> Ok([SoBlank EXCEPT !.masks = ev.masks, !.ph = "Input"])
      [] ev.e = "panic" -> Bad(st, ev.op \o ": panic")
      [] ev.e = "out" -> StepOut(st, ev)
      [] ev.e = "asg" -> StepAsg(st, ev)
      [] ev.e = "tv" -> StepTv(st, ev)
      [] ev.e = "conv" -> StepConv(st, ev)
      [] ev.e = "ext" -> StepExt(st, ev)
      [] OTHER -> Bad(st, ev.e)
=============================================================================
