------------------------------- MODULE VarMan -------------------------------
(* Variable managers. Per manager:                                          *)
(*   next   variables below next are used                                   *)
(*   map    the renaming / object table produced so far (key :> variable)   *)
(*   idn    variables below idn may be reversed to themselves               *)
(*   own    variables below own must be (documented identity of the part    *)
(*          below the first free variable; combining never takes it away)   *)
(*   perm   random renaming: its size; keys below it are permuted           *)
EXTENDS Integers, Sequences, FiniteSets, TLC
VmBlank == [m |-> <<>>]
Ok(st) == [ok |-> TRUE, st |-> st, why |-> ""]
Bad(st, why) == [ok |-> FALSE, st |-> st, why |-> why]
Empty == [x \in {} |-> 0]
Max(a, b) == IF a > b THEN a ELSE b
Min(a, b) == IF a < b THEN a ELSE b
Img(f) == {f[x] : x \in DOMAIN f}
New(ev) == [ty |-> ev.ty, next |-> ev.n, map |-> Empty, idn |-> ev.n, own |-> ev.n, perm |-> IF ev.ty = "rand" THEN ev.n ELSE 0,
            alt |-> Empty, gone |-> FALSE]
\* a: after combining, a key has the variable of either manager (other has precedence unless
\* a random renaming would stop being a bijection)
Combined(a, b) ==
    [a EXCEPT !.next = Max(a.next, b.next), !.idn = Max(a.idn, b.idn), !.perm = Max(a.perm, b.perm),
              !.map = IF a.ty = "rand" THEN (IF a.perm > b.perm THEN a.map ELSE b.map) ELSE b.map @@ a.map]
\* every operation reports the maximum and the number of used variables
Obs(st, i, ev) ==
    LET m == st.m[i] IN
    IF ev.max # m.next - 1 THEN Bad(st, ev.e \o ": wrong maximum variable")
    ELSE IF ev.used # m.next THEN Bad(st, ev.e \o ": wrong number of used variables")
    ELSE Ok(st)
Upd(st, i, m) == [st EXCEPT !.m[i] = m]
StepReindex(st, i, m, ev) ==
    IF ~ev.sign THEN Bad(st, "reindexing changed the sign")
    ELSE IF m.ty = "rand" THEN
        IF ev.arg >= m.perm THEN
            IF ev.v # ev.arg THEN Bad(st, "reindexing beyond the permuted range")
            ELSE Obs(Upd(st, i, [m EXCEPT !.next = Max(@, ev.v + 1)]), i, ev)
        ELSE IF ev.arg \in DOMAIN m.map /\ m.map[ev.arg] # ev.v THEN Bad(st, "the same key yields another variable")
        ELSE IF ev.arg \notin DOMAIN m.map /\ ev.v \in Img(m.map) THEN Bad(st, "renaming is not injective")
        ELSE IF ev.v >= m.perm THEN Bad(st, "renaming leaves its range")
        ELSE Obs(Upd(st, i, [m EXCEPT !.map = (ev.arg :> ev.v) @@ @]), i, ev)
    ELSE IF ev.arg \in DOMAIN m.map THEN
        IF m.map[ev.arg] # ev.v THEN Bad(st, "the same key yields another variable") ELSE Obs(st, i, ev)
    ELSE IF ev.v < m.next THEN Bad(st, "reindexing to a used variable")
    ELSE Obs(Upd(st, i, [m EXCEPT !.map = (ev.arg :> ev.v) @@ @, !.next = ev.v + 1]), i, ev)
StepReverse(st, i, m, ev) ==
    LET ins == {x \in DOMAIN m.map : m.map[x] = ev.arg} IN
    IF ~ev.sign THEN Bad(st, "reversing changed the sign")
    ELSE IF m.ty = "rand" THEN
        IF ev.arg >= m.perm THEN IF ev.v # ev.arg THEN Bad(st, "reversing beyond the permuted range") ELSE Obs(st, i, ev)
        ELSE IF ins # {} THEN IF ev.v \in ins THEN Obs(st, i, ev) ELSE Bad(st, "reverse is not the inverse")
        ELSE IF ev.v < 0 \/ ev.v >= m.perm \/ ev.v \in DOMAIN m.map THEN Bad(st, "reverse is not the inverse")
        ELSE Obs(Upd(st, i, [m EXCEPT !.map = (ev.v :> ev.arg) @@ @]), i, ev)
    ELSE IF ins # {} THEN IF ev.v \in ins THEN Obs(st, i, ev) ELSE Bad(st, "reverse is not the inverse")
    ELSE IF (ev.v = -1 /\ ev.arg >= m.own) \/ (ev.v = ev.arg /\ ev.arg < m.idn) THEN Obs(st, i, ev)
    ELSE Bad(st, "reverse of a variable that was never produced")
StepObject(st, i, m, ev) ==
    IF ev.key \in DOMAIN m.map THEN
        IF m.map[ev.key] # ev.v THEN Bad(st, "the same key yields another variable") ELSE Obs(st, i, ev)
    ELSE IF ev.v < m.next THEN Bad(st, "object got a used variable")
    ELSE Obs(Upd(st, i, [m EXCEPT !.map = (ev.key :> ev.v) @@ @, !.next = ev.v + 1]), i, ev)
StepVar(st, i, m, ev) ==
    CASE ev.e \in {"newvar", "newlit"} ->
            IF ev.v < m.next THEN Bad(st, "new variable is not fresh")
            ELSE IF ev.e = "newlit" /\ ~ev.pos THEN Bad(st, "new literal is negated")
            ELSE Obs(Upd(st, i, [m EXCEPT !.next = ev.v + 1]), i, ev)
      [] ev.e = "mark" -> IF ev.r # (ev.arg >= m.next) THEN Bad(st, "mark used: wrong result")
                          ELSE Obs(Upd(st, i, [m EXCEPT !.next = Max(@, ev.arg + 1)]), i, ev)
      [] ev.e = "incr" -> IF ev.r # (ev.arg > m.next) THEN Bad(st, "increase next free: wrong result")
                          ELSE Obs(Upd(st, i, [m EXCEPT !.next = Max(@, ev.arg)]), i, ev)
      [] ev.e = "forget" ->
            LET keep == {x \in DOMAIN m.map : m.map[x] < ev.arg} IN
            Obs(Upd(st, i, [m EXCEPT !.next = Min(@, ev.arg), !.idn = Min(@, ev.arg), !.own = Min(@, ev.arg),
                                     !.map = IF m.ty = "rand" THEN m.map ELSE [x \in keep |-> m.map[x]]]), i, ev)
      [] ev.e = "reindex" -> StepReindex(st, i, m, ev)
      [] ev.e = "reverse" -> StepReverse(st, i, m, ev)
      [] ev.e = "object" -> StepObject(st, i, m, ev)
      [] ev.e = "combine" -> Obs(Upd(st, i, Combined(m, st.m[ev.j])), i, ev)
      [] OTHER -> Bad(st, ev.e)
VmStep(st, ev) ==
    CASE ev.e = "new" -> Ok([m |-> <<>>])
      [] ev.e = "make" -> Obs([st EXCEPT !.m = Append(@, New(ev))], ev.i, ev)
      [] ev.e = "panic" -> Bad(st, "panic")
      [] OTHER -> StepVar(st, ev.i, st.m[ev.i], ev)
=============================================================================
