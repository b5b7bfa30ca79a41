-------------------------------- MODULE Capi --------------------------------
(* The C interface: opaque handles on encodings that share one variable     *)
(* counter. Every handle has its own clause callback.                       *)
(*   used    value of n_vars_used                                           *)
(*   hs      one state per handle; the bound encodings are IncEnc states,   *)
(*           at-most-one handles have ty = "amo"                            *)
EXTENDS IncEnc, TLC
CapiBlank == [nv |-> 0]
AmoTypes == {"pairwise", "ladder", "bitwise", "commander", "bimander", "twoproduct"}
Dead == [ty |-> "dead"]
CNew(ev) == Ok([nv |-> ev.nv, masks |-> ev.masks, used |-> ev.nv, hs |-> <<>>])
EmptyInc(st, ty) == NewSt([ty |-> ty, lits |-> <<>>, w |-> <<>>, masks |-> st.masks])
CMake(st, ev) ==
    IF ev.ty \in AmoTypes
    THEN Ok([st EXCEPT !.hs = Append(@, [ty |-> "amo", lits |-> <<>>, hard |-> DOMAIN st.masks])])
    ELSE Ok([st EXCEPT !.hs = Append(@, EmptyInc(st, ev.ty))])
NTrue(mask, lits) == Cardinality({i \in DOMAIN lits : LitTrue(mask, lits[i])})

\* the result of adding an input literal; anything but Ok leaves the encoding as it was
WantAdd(h, ev) ==
    IF ~ev.valid THEN "litinv"
    ELSE IF h.ty = "dpw" /\ h.built THEN "state" ELSE "ok"
CAdd(st, ev) ==
    LET h == st.hs[ev.h] want == WantAdd(h, ev) IN
    IF ev.r # want THEN Bad(st, "add: " \o ev.r \o " instead of " \o want)
    ELSE IF ev.r # "ok" THEN Ok(st)
    ELSE IF h.ty = "amo" THEN Ok([st EXCEPT !.hs[ev.h].lits = Append(@, ev.lit)])
    ELSE Ok([st EXCEPT !.hs[ev.h] = WithInputs(h, Inputs(h.ty, h.inputs, <<<<ev.lit, ev.w>>>>))])

\* what any call may do to the variable counter and the callback
CommonOk(st, ev) ==
    IF ev.u0 # st.used THEN "variable counter out of step"
    ELSE IF ev.u1 < ev.u0 THEN "variable counter decreases"
    ELSE IF ~ev.term THEN "clause stream not terminated"
    ELSE IF ~ev.data THEN "callback gets other data"
    ELSE IF \E v \in Range(ev.aux) : v > ev.u1 THEN "literal over a variable beyond the counter"
    ELSE ""
NewVars(ev) == [i \in 1..(ev.u1 - ev.u0) |-> ev.u0 + i]
CAmo(st, ev) ==
    LET h == st.hs[ev.h]
        amo == {m \in DOMAIN st.masks : NTrue(st.masks[m], h.lits) <= 1}
        hard == h.hard \cap amo IN
    IF ~(Range(ev.aux) \subseteq Range(NewVars(ev))) THEN Bad(st, "clauses over variables of others")
    ELSE IF \E m \in DOMAIN st.masks : (ev.sat[m] = 1) # (m \in hard) THEN Bad(st, "clauses do not mean at most one")
    ELSE Ok([st EXCEPT !.hs[ev.h].hard = hard, !.used = ev.u1])
Wrap(st, ev, r) == [ok |-> r.ok, why |-> r.why,
                    st |-> IF r.ok THEN [st EXCEPT !.hs[ev.h] = r.st, !.used = ev.u1] ELSE st]
\* return code of dpw_set_precision and friends are those of IncEnc
Native(st, ev) == [ev EXCEPT !.e = ev.op] @@ [new |-> NewVars(ev), hasst |-> FALSE]
CCall(st, ev) ==
    LET why == CommonOk(st, ev) IN
    IF why # "" THEN Bad(st, why)
    ELSE IF st.hs[ev.h].ty = "amo" THEN CAmo(st, ev)
    ELSE Wrap(st, ev, IncStep(st.hs[ev.h], Native(st, ev)))
\* trivially satisfied bounds need no assumption: the totalizer interface then returns the literal 0
CEnforce(st, ev) ==
    LET why == CommonOk(st, ev) IN
    IF why # "" THEN Bad(st, why)
    ELSE IF st.hs[ev.h].ty = "tot" /\ ev.r = "ok" /\ ev.nass > 1 THEN Bad(st, "several assumptions")
    ELSE IF ev.r # "ok" /\ ev.nass # 0 THEN Bad(st, "assumptions although an error is reported")
    ELSE Wrap(st, ev, IncStep(st.hs[ev.h], Native(st, ev)))
CUser(st, ev) == Ok([st EXCEPT !.used = ev.u1])
\* coarse_ub and the precision queries leave the counter alone
CDrop(st, ev) == Ok([st EXCEPT !.hs[ev.h] = Dead])
CapiStep(st, ev) ==
    CASE ev.e = "new" -> CNew(ev)
      [] ev.e = "make" -> CMake(st, ev)
      [] ev.e = "add" -> CAdd(st, ev)
      [] ev.e = "call" -> CCall(st, ev)
      [] ev.e = "enf" -> CEnforce(st, ev)
      [] ev.e = "uservars" -> CUser(st, ev)
      [] ev.e = "coarse" -> IF BLe(ev.cu, ev.v) THEN Ok(st) ELSE Bad(st, "coarse_ub is not stricter")
      [] ev.e = "drop" -> CDrop(st, ev)
      [] OTHER -> Bad(st, "event outside the specification")
=============================================================================
