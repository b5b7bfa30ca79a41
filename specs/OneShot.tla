------------------------------ MODULE OneShot -------------------------------
(* One-shot encodings into a shared collector. hard: assignments permitted  *)
(* by everything encoded so far; owned: auxiliary variables handed out.     *)
EXTENDS Constr
OsBlank == [nv |-> 0]
Ok(st) == [ok |-> TRUE, st |-> st, why |-> ""]
Bad(st, why) == [ok |-> FALSE, st |-> st, why |-> why]
All(st) == DOMAIN st.masks
WithW(c) == IF c.k = "card" THEN [c EXCEPT !.w = [i \in DOMAIN c.l |-> 1]] ELSE c

StepConstr(st, ev) ==
    LET mean == Meaning(st.masks, WithW(ev.c))
        new == Range(ev.new)
        hard == st.hard \cap mean IN
    CASE ev.r = "unsat" -> IF mean = {} THEN Ok(st) ELSE Bad(st, "satisfiable constraint reported unsatisfiable")
      [] ev.r = "ok" ->
            IF new \cap st.owned # {} THEN Bad(st, "variable handed out twice")
            ELSE IF ~(Range(ev.aux) \subseteq new) THEN Bad(st, "clauses over variables of others")
            ELSE IF \E m \in All(st) : ev.own[m] = 0 /\ m \in mean THEN Bad(st, "encoding excludes a solution")
            ELSE IF \E m \in All(st) : ev.own[m] = 1 /\ m \notin mean THEN Bad(st, "encoding permits a non-solution")
            ELSE IF \E m \in All(st) : (ev.sat[m] = 1) # (m \in hard) THEN Bad(st, "encodings in one collector interfere")
            ELSE Ok([st EXCEPT !.hard = hard, !.owned = @ \cup new])
      [] OTHER -> Bad(st, "encoding: " \o ev.r)

Single(ls) == {ls[1]}
Cube(m, ls) == \A i \in DOMAIN ls : LitTrue(m, ls[i])
Clause(m, ls) == \E i \in DOMAIN ls : LitTrue(m, ls[i])
Side(t, m, ls) == CASE t = "l" -> LitTrue(m, ls[1]) [] t = "q" -> Cube(m, ls) [] OTHER -> Clause(m, ls)
Shape(f) == CASE f = "ll" -> <<"l", "l">> [] f = "lc" -> <<"l", "c">> [] f = "ql" -> <<"q", "l">> [] f = "qc" -> <<"q", "c">>
              [] f = "lq" -> <<"l", "q">> [] f = "cl" -> <<"c", "l">> [] f = "cc" -> <<"c", "c">> [] f = "cq" -> <<"c", "q">> [] OTHER -> <<"q", "q">>
StepImpl(st, ev) ==
    LET t == Shape(ev.f)
        want == {m \in All(st) : Side(t[1], st.masks[m], ev.a) => Side(t[2], st.masks[m], ev.b)} IN
    IF ev.r # "ok" THEN Bad(st, "implication: " \o ev.r)
    ELSE IF {m \in All(st) : \A i \in DOMAIN ev.got : Holds(st.masks[m], ev.got[i])} # want THEN Bad(st, "implication means something else")
    ELSE Ok(st)
StepReify(st, ev) ==
    LET c == WithW(ev.c)
        mean == Meaning(st.masks, c)
        lit == {m \in All(st) : LitTrue(st.masks[m], ev.lit)}
        want == {m \in All(st) : IF ev.fwd THEN m \in lit => m \in mean ELSE m \in mean => m \in lit} IN
    CASE ev.r = "panic" -> IF c.op = "eq" \/ mean = {} THEN Ok(st) ELSE Bad(st, "reification: panic")
      [] ev.r = "ok" -> IF Meaning(st.masks, ev.got) # want THEN Bad(st, "reification means something else") ELSE Ok(st)
OsStep(st, ev) ==
    CASE ev.e = "new" -> Ok([nv |-> ev.nv, masks |-> ev.masks, hard |-> DOMAIN ev.masks, owned |-> {}])
      [] ev.e = "constr" -> StepConstr(st, ev)
      [] ev.e = "impl" -> StepImpl(st, ev)
      [] ev.e = "reify" -> StepReify(st, ev)
      [] OTHER -> Bad(st, "event outside the specification")
=============================================================================
