------------------------------ MODULE MC_IncEnc ------------------------------
(* All short histories of an incremental encoding.                          *)
(* Exploring: every answer the specification accepts is taken; the property *)
(* is restated over the ghost history alone (the inputs, the last encoded   *)
(* range, the hardened bounds) and checked on each accepted answer.         *)
(* Generating: each call history once, for replay on the real encodings.    *)
EXTENDS IncEnc, TLC, Json
CONSTANTS Ty, Depth, Gen, W2
VARIABLES st, hist, n, ins, last, hard
vars == <<st, hist, n, ins, last, hard>>

Masks == <<<<0, 0>>, <<0, 1>>, <<1, 0>>, <<1, 1>>>>
Kinds == IF Ty \in UbOnly THEN {"ub"} ELSE IF Ty \in LbOnly THEN {"lb"} ELSE {"ub", "lb", "both"}
Card == Ty \in {"tot", "invtot", "dbltot", "reftot", "celltot"}
W(k) == IF Card THEN 1 ELSE k
Inits == {<<>>, <<<<1, W(1)>>, <<2, W(W2)>>>>, <<<<1, W(W2)>>, <<-1, W(1)>>, <<2, W(1)>>>>, <<<<1, 1>>, <<1, W(1)>>>>}
Extends == {<<<<-2, W(1)>>>>, <<<<1, W(W2)>>, <<2, W(1)>>>>}
Lits(x) == [i \in DOMAIN x |-> x[i][1]]
Ws(x) == [i \in DOMAIN x |-> <<0, x[i][2]>>]
RECURSIVE Plain(_)
Plain(x) == IF x = <<>> THEN 0 ELSE Head(x)[2] + Plain(Tail(x))
Top == Plain(ins)
Bnd(t, v) == [t |-> t, v |-> <<0, v>>]
Ranges == {<<Bnd("i", i), Bnd("i", j)>> : i \in 0..(Top + 1), j \in 0..(Top + 1)}
          \cup {<<Bnd("u", 0), Bnd("e", j)>> : j \in {1, Top}} \cup {<<Bnd("i", i), Bnd("u", 0)>> : i \in {0, 1}}
Sensible == {r \in Ranges : r[1].t = "u" \/ r[2].t = "u" \/ BLe(r[1].v, r[2].v)}
Ops ==
    IF n = 0 THEN {[op |-> "new", init |-> x] : x \in Inits}
    ELSE {[op |-> "encode", k |-> k, chg |-> c, a |-> r[1], b |-> r[2]] : k \in Kinds, c \in BOOLEAN, r \in Sensible}
         \cup {[op |-> o, k |-> k, b |-> <<0, b>>] : o \in IF Gen THEN {"enforce", "harden"} ELSE {"harden"}, k \in Kinds, b \in 0..(Top + 1)}
         \cup {[op |-> "extend", l |-> x] : x \in Extends}
         \cup {[op |-> o] : o \in {"reserve", "fresh", "checkpoint"}}
New(k) == IF Gen THEN {{}} ELSE {{}, {k + 2}}
Res(o) ==
    CASE o.op = "new" -> {[e |-> "new", r |-> "ok", ty |-> Ty, lits |-> Lits(o.init), w |-> Ws(o.init), masks |-> Masks,
                           sum |-> <<0, Plain(o.init)>>]}
      [] o.op = "extend" -> {[e |-> "extend", r |-> "ok", lits |-> Lits(o.l), w |-> Ws(o.l), sum |-> <<0, Top + Plain(o.l)>>]}
      [] o.op = "encode" -> {[e |-> "encode", r |-> "ok", k |-> o.k, chg |-> o.chg, a |-> o.a, b |-> o.b, ncl |-> 0, hasst |-> FALSE,
                              aux |-> [i \in 1..Cardinality(x) |-> n + 2], new |-> [i \in 1..Cardinality(x) |-> n + 2]] : x \in New(n)}
      [] o.op = "reserve" -> {[e |-> "reserve", r |-> "ok", ncl |-> 0, hasst |-> FALSE, new |-> <<>>, aux |-> <<>>]}
      [] o.op \in {"enforce", "harden"} ->
            {[e |-> o.op, r |-> r, k |-> o.k, b |-> o.b, aux |-> <<>>, sat |-> s] :
                r \in {"ok", "notenc", "unsat"}, s \in IF Gen THEN {<<0, 0, 0, 0>>} ELSE [1..4 -> {0, 1}]}
      [] o.op = "fresh" -> {[e |-> "fresh"]}
      [] o.op = "checkpoint" -> {[e |-> "checkpoint", r |-> "ok"]}
      [] OTHER -> {}
\* generating: any answer, the calls do not depend on it
After(o, e) == IF Gen /\ o.op \in {"enforce", "harden"} THEN st ELSE IncStep(st, e).st
Accepts(o, e) == (Gen /\ o.op \in {"enforce", "harden"}) \/ IncStep(st, e).ok
BndJ(b) == <<b.t, b.v[2]>>
Out(o) == CASE o.op = "encode" -> [o EXCEPT !.a = BndJ(o.a), !.b = BndJ(o.b)]
            [] o.op \in {"enforce", "harden"} -> [o EXCEPT !.b = ToString(o.b[2])]
            [] o.op = "new" -> [op |-> "new", lits |-> Lits(o.init), w |-> [i \in DOMAIN o.init |-> ToString(o.init[i][2])]]
            [] o.op = "extend" -> [op |-> "extend", lits |-> Lits(o.l), w |-> [i \in DOMAIN o.l |-> ToString(o.l[i][2])]]
            [] OTHER -> o
Init == st = IncBlank /\ hist = <<>> /\ n = 0 /\ ins = <<>> /\ last = <<>> /\ hard = {}
Next ==
    /\ n < Depth
    /\ n' = n + 1
    /\ \E o \in Ops :
        \E e \in Res(o) :
            /\ (Gen => e = CHOOSE x \in Res(o) : TRUE)
            /\ Accepts(o, e)
            /\ (Gen /\ n + 1 = Depth => o.op = "encode") \* the last call is worth observing
            /\ (Gen /\ n > 0 => (o.op = "fresh" => hist[n].op # "fresh")
                                /\ (hist[n].op = "fresh" => o.op = "encode" /\ ~o.chg))
            /\ st' = After(o, e)
            /\ hist' = IF Gen THEN Append(hist, Out(o)) ELSE <<>>
            /\ ins' = IF o.op = "new" THEN o.init ELSE IF o.op = "extend" THEN ins \o o.l ELSE ins
            /\ last' = IF o.op = "encode" THEN <<o.k, Lo(o.a), Hi(o.b)>> ELSE IF o.op \in {"enforce", "checkpoint", "harden"} THEN last ELSE <<>>
            /\ hard' = IF o.op = "fresh" THEN {} ELSE IF ~Gen /\ o.op = "harden" /\ e.r = "ok" THEN hard \cup {<<o.k, o.b, ins>>} ELSE hard
    /\ (Gen /\ n' = Depth => PrintT("SCEN " \o ToJson([ty |-> Ty, ops |-> hist'])))
Spec == Init /\ [][Next]_vars
-----------------------------------------------------------------------------
\* the property, independently of the specification's bookkeeping
RECURSIVE Count(_, _)
Count(x, m) == IF x = <<>> THEN 0
    ELSE Count(Tail(x), m) + (IF (Head(x)[1] > 0) = (m[IF Head(x)[1] > 0 THEN Head(x)[1] ELSE -Head(x)[1]] = 1) THEN Head(x)[2] ELSE 0)
Obeys(x, k, b, m) == (k # "lb" => Count(x, m) <= b[2]) /\ (k # "ub" => Count(x, m) >= b[2])
Contract == "ub" \notin st.stale /\ "lb" \notin st.stale
Answer(k, b, r, s) == IncStep(st, [e |-> "enforce", r |-> r, k |-> k, b |-> <<0, b>>, aux |-> <<>>, sat |-> s]).ok
Sats == [1..4 -> {0, 1}]
Right(k, b) == [i \in 1..4 |->
    IF Obeys(ins, k, <<0, b>>, Masks[i]) /\ \A h \in hard : Obeys(h[3], h[1], h[2], Masks[i]) THEN 1 ELSE 0]
\* an accepted positive answer means exactly the bound (and the bounds hardened before)
Meaning == n > 0 /\ Contract => \A k \in Kinds : \A b \in 0..(Top + 1) :
    \A s \in Sats : Answer(k, b, "ok", s) => s = Right(k, b)
\* unsatisfiability is claimed only for unreachable lower bounds, and always then
UnsatRight == n > 0 /\ Contract => \A k \in Kinds : \A b \in 0..(Top + 1) :
    IF k # "ub" /\ b > Top THEN ~Answer(k, b, "ok", Right(k, b)) /\ ~Answer(k, b, "notenc", Right(k, b))
    ELSE ~Answer(k, b, "unsat", Right(k, b))
\* a correct encoding is accepted
Realisable == n > 0 => \A k \in Kinds : \A b \in 0..(Top + 1) : Answer(k, b, IF k # "ub" /\ b > Top THEN "unsat" ELSE "ok", Right(k, b))
\* a bound of the range encoded last can be enforced
LastEncoded == last # <<>> /\ Contract /\ Ty \notin Adders =>
    \A b \in 0..(Top + 1) :
        BLe(last[2], <<0, b>>) /\ BLt(<<0, b>>, last[3]) =>
            \A k \in (IF last[1] = "both" THEN {"ub", "lb", "both"} ELSE {last[1]}) :
                ~Answer(k, b, "notenc", <<0, 0, 0, 0>>)
\* upper bounds that cannot be exceeded and lower bounds that cannot be missed always can be
Trivial == n > 0 /\ Contract => \A b \in {Top, Top + 1} :
    "ub" \in Kinds => ~Answer("ub", b, "notenc", <<0, 0, 0, 0>>)
=============================================================================
