------------------------------- MODULE MaxSat -------------------------------
(* MaxSAT search. The state is the instance built so far: the assignments   *)
(* that satisfy the hard constraints and the objective (ObjInst). A search  *)
(* answers with no solution iff there is none, and otherwise with a (partial)*)
(* assignment that satisfies the hard constraints however it is completed,  *)
(* together with its cost, which is the least one.                          *)
EXTENDS ObjInst
MsBlank == [masks |-> <<>>, mods |-> {}, o |-> O0]
Completions(masks, p) == {m \in DOMAIN masks : \A v \in DOMAIN p : p[v] \in {-1, masks[m][v]}}
Least(S) == CHOOSE x \in S : \A y \in S : x <= y
\* the answer to a search for the models mods and the cost function C(_)
Answer(st, r, mods, C(_)) ==
    IF r.k = "panic" THEN Bad(st, "search panics")
    ELSE IF mods = {} THEN (IF r.k = "none" THEN Ok(st) ELSE Bad(st, "solution for unsatisfiable constraints"))
    ELSE IF r.k # "sol" THEN Bad(st, "no solution for satisfiable constraints")
    ELSE LET comp == Completions(st.masks, r.p)
             best == Least({C(m) : m \in mods}) IN
         IF ~(comp \subseteq mods) THEN Bad(st, "solution violates the hard constraints")
         ELSE IF r.cost < best THEN Bad(st, "reported cost is below the optimum")
         ELSE IF r.cost > best THEN Bad(st, "reported cost is above the optimum")
         ELSE IF \A m \in comp : C(m) # r.cost THEN Bad(st, "solution does not have the reported cost")
         ELSE Ok(st)
RECURSIVE LitSum(_, _, _, _)
LitSum(p, l, w, i) == IF i = 0 THEN 0 ELSE (IF LitTrue(p, l[i]) THEN w[i] ELSE 0) + LitSum(p, l, w, i - 1)
Search(st, ev) ==
    IF ev.how = "raw"
    THEN Answer(st, ev.r, {m \in DOMAIN st.masks : \A i \in DOMAIN ev.cls : Holds(st.masks[m], ClauseOf(ev.cls[i]))},
                LAMBDA m : LitSum(st.masks[m], ev.l, ev.w, Len(ev.l)))
    ELSE Answer(st, ev.r, st.mods, LAMBDA m : Cost(st.masks[m], st.o))
MsStep(st, ev) ==
    CASE ev.e = "new" -> Ok([masks |-> IF "stub" \in DOMAIN ev THEN <<>> ELSE ev.masks, mods |-> IF "stub" \in DOMAIN ev THEN {} ELSE DOMAIN ev.masks, o |-> O0])
      [] ev.e = "cs" -> Ok([st EXCEPT !.mods = {m \in @ : Holds(st.masks[m], ev.c)}])
      [] ev.e = "soft" -> Ok([st EXCEPT !.o = Incr(@, ev.c, ev.w)])
      [] ev.e = "lit" -> Ok([st EXCEPT !.o = IncrInt(@, ev.l, ev.w)])
      [] ev.e = "off" -> Ok([st EXCEPT !.o.off = @ + ev.w])
      [] ev.e = "solve" -> Search(st, ev)
      [] ev.e = "panic" -> Bad(st, "operation panics")
=============================================================================
