-------------------------------- MODULE Am1 ---------------------------------
(* At-most-one encodings: several encodings over one clause collector and   *)
(* one variable manager.                                                    *)
(*   encs     per encoding: its input literals and what it has emitted      *)
(*   hard     the constraints (sets of masks) emitted so far                *)
(*   owned    variables handed out                                          *)
EXTENDS Integers, Sequences, FiniteSets
Am1Blank == [nv |-> 0]
Ok(st) == [ok |-> TRUE, st |-> st, why |-> ""]
Bad(st, why) == [ok |-> FALSE, st |-> st, why |-> why]
Range(s) == {s[i] : i \in DOMAIN s}
LitTrue(mask, lit) == IF lit > 0 THEN mask[lit] = 1 ELSE mask[-lit] = 0
\* occurrences count, so a literal listed twice can never be true
NTrue(mask, lits) == Cardinality({i \in DOMAIN lits : LitTrue(mask, lits[i])})
AtMostOne(masks, lits) == {m \in DOMAIN masks : NTrue(masks[m], lits) <= 1}

StepNew(ev) == Ok([nv |-> ev.nv, masks |-> ev.masks, encs |-> <<>>, hard |-> DOMAIN ev.masks, owned |-> {}])
StepMake(st, ev) == Ok([st EXCEPT !.encs = Append(@, [lits |-> ev.lits, ncl |-> 0, nvar |-> 0])])
StepExtend(st, ev) ==
    LET l == st.encs[ev.i].lits \o ev.lits
        s == [st EXCEPT !.encs[ev.i].lits = l] IN
    IF ev.n # Len(l) \/ ev.it # l THEN Bad(st, "inputs are not what was added") ELSE Ok(s)
StepUser(st, ev) == IF Range(ev.vars) \cap st.owned # {} THEN Bad(st, "variable handed out twice")
                    ELSE Ok(st)
StepEncode(st, ev) ==
    LET e == st.encs[ev.i]
        amo == AtMostOne(st.masks, e.lits)
        hard == st.hard \cap amo
        new == Range(ev.new)
        s == [st EXCEPT !.hard = hard, !.owned = @ \cup new,
                        !.encs[ev.i].ncl = @ + ev.ncl, !.encs[ev.i].nvar = @ + Cardinality(new)] IN
    IF ev.r # "ok" THEN Bad(st, "encode: " \o ev.r)
    ELSE IF new \cap st.owned # {} THEN Bad(st, "variable handed out twice")
    ELSE IF ~(Range(ev.aux) \subseteq new) THEN Bad(st, "clauses over variables of others")
    ELSE IF \E m \in DOMAIN st.masks : (ev.own[m] = 1) # (m \in amo) THEN Bad(st, "clauses do not mean at most one")
    ELSE IF \E m \in DOMAIN st.masks : (ev.sat[m] = 1) # (m \in hard) THEN Bad(st, "encodings in one collector interfere")
    ELSE IF ev.stcl # s.encs[ev.i].ncl THEN Bad(st, "clause count is not what was emitted")
    ELSE IF ev.stv # s.encs[ev.i].nvar THEN Bad(st, "variable count is not what was allocated")
    ELSE Ok(s)
Am1Step(st, ev) ==
    CASE ev.e = "new" -> StepNew(ev)
      [] ev.e = "make" -> StepMake(st, ev)
      [] ev.e = "extend" -> StepExtend(st, ev)
      [] ev.e = "uservars" -> StepUser(st, ev)
      [] ev.e = "encode" -> StepEncode(st, ev)
      [] OTHER -> Bad(st, "event outside the specification")
=============================================================================
