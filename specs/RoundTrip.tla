----------------------------- MODULE RoundTrip -----------------------------
(* Writing an instance and reading it back. The state holds the models and  *)
(* the costs of all assignments for every objective as built; a read must   *)
(* give the same models, and costs that differ by a constant at most (the   *)
(* formats cannot store offsets). What a format cannot express is refused.  *)
EXTENDS Constr, TLC
FS == INSTANCE FiniteSetsExt
RtBlank == [masks |-> <<>>, mods |-> {}, costs |-> <<>>, ty |-> "S", n |-> 0, cs |-> <<>>, softs |-> <<>>, used |-> 0, wrote |-> FALSE]
Ok(st) == [ok |-> TRUE, st |-> st, why |-> ""]
Bad(st, why) == [ok |-> FALSE, st |-> st, why |-> why]
Falsified(mask, c) == \A i \in DOMAIN c : ~LitTrue(mask, c[i])
CostOf(mask, softs, k) ==
    FS!MapThenSumSet(LAMBDA i : IF softs[i].k = k - 1 /\ Falsified(mask, softs[i].c) THEN softs[i].w ELSE 0, DOMAIN softs)
StepBuild(st, ev) ==
    Ok([st EXCEPT !.mods = {m \in DOMAIN st.masks : \A i \in DOMAIN ev.cs : Holds(st.masks[m], ev.cs[i])},
        !.costs = [k \in 1..ev.n |-> [m \in DOMAIN st.masks |-> CostOf(st.masks[m], ev.softs, k)]],
        !.ty = ev.ty, !.n = ev.n, !.cs = ev.cs, !.softs = ev.softs, !.used = ev.used])
\* what the formats can express
Expressible(st, fmt) ==
    IF fmt = "opb" THEN \A i \in DOMAIN st.softs : Len(st.softs[i].c) <= 1 \/ st.softs[i].w = 0
    ELSE \A i \in DOMAIN st.cs : st.cs[i].k = "cl"
Active(st, k) == \E i \in DOMAIN st.softs : st.softs[i].k = k - 1 /\ st.softs[i].w > 0 /\ st.softs[i].c # <<>>
Top(S) == IF S = {} THEN 0 ELSE CHOOSE x \in S : \A y \in S : y <= x
StepWrite(st, ev) ==
    IF ev.ok /\ ~Expressible(st, ev.fmt) THEN Bad(st, ev.fmt \o ": an instance the format cannot express is written")
    ELSE IF ~ev.ok /\ Expressible(st, ev.fmt) THEN Bad(st, ev.fmt \o ": writing fails")
    ELSE Ok([st EXCEPT !.wrote = ev.ok])
StepRead(st, ev) ==
    LET d == ev.d
        want == IF ev.as = "S" THEN 0 ELSE st.n
        \* trailing objectives without soft clauses do not appear in an MCNF file
        least == IF ev.fmt = "opb" \/ ev.as = "O" THEN want ELSE Top({k \in 1..st.n : Active(st, k)})
        shift(k) == d.costs[k][1] - st.costs[k][1] IN
    IF ~st.wrote THEN Bad(st, "read")
    ELSE IF ~ev.ok THEN Bad(st, ev.fmt \o ": the written file is not readable")
    ELSE IF Len(d.sat) # Len(st.masks) THEN Bad(st, ev.fmt \o ": unknown variables appear")
    ELSE IF {m \in DOMAIN st.masks : d.sat[m] = 1} # st.mods THEN Bad(st, ev.fmt \o ": models changed")
    ELSE IF Len(d.costs) > want \/ Len(d.costs) < least THEN Bad(st, ev.fmt \o ": wrong number of objectives")
    ELSE IF \E k \in DOMAIN d.costs : \E m \in DOMAIN st.masks : d.costs[k][m] - st.costs[k][m] # shift(k) THEN Bad(st, ev.fmt \o ": costs changed")
    ELSE IF st.ty = "S" /\ ev.fmt = "cnf" /\ d.used # st.used THEN Bad(st, "cnf: number of variables changed")
    ELSE Ok(st)
RtStep(st, ev) ==
    CASE ev.e = "new" -> Ok([RtBlank EXCEPT !.masks = ev.masks])
      [] ev.e = "panic" -> Bad(st, ev.op \o ": panic")
      [] ev.e = "build" -> StepBuild(st, ev)
      [] ev.e = "write" -> StepWrite(st, ev)
      [] ev.e = "read" -> StepRead(st, ev)
      [] OTHER -> Bad(st, ev.e)
=============================================================================
