------------------------------ MODULE MC_Proof -------------------------------
(* The proof rules as the specification accepts them are sound: over all    *)
(* short proofs from small inputs, whatever is derived without redundancy   *)
(* steps is implied by the inputs, redundancy steps keep satisfiability,    *)
(* deleting never makes a problem harder, and an identifier always denotes  *)
(* the constraint it was given to.                                          *)
EXTENDS Proof
CONSTANTS NV, Depth, Coef
VARIABLES st, n, inp, pure, book
vars == <<st, n, inp, pure, book>>

V == 1..NV
Terms(f) == SetToSeq({<<f[v], v>> : v \in {v \in V : f[v] # 0}})
\* constraints as they are written: signed coefficients, any bound
Cs == {[t |-> Terms(f), b |-> b] : f \in [V -> (-Coef)..Coef], b \in 0..Coef}
Inputs == {<<a, b>> : a \in {c \in Cs : Len(c.t) = NV /\ c.b = 1}, b \in {c \in Cs : Len(c.t) = 1 /\ c.b = 1} \cup {[t |-> <<>>, b |-> 0], [t |-> <<>>, b |-> 1]}}
Ws == {<<>>} \cup {<<<<v, t, 0>>>> : v \in V, t \in {"t", "f"}} \cup {<<<<1, "l", s * 2>>, <<2, "l", s>>>> : s \in {1, -1}}
Ids == DOMAIN st.db
Pols == {<<<<"id", i>>>> : i \in Ids}
        \cup {<<<<"id", i>>, <<"id", j>>, <<"+">>, x>> : i \in Ids, j \in Ids, x \in {<<"s">>, <<"d", 2>>, <<"*", 2>>}}
        \cup {<<<<"id", i>>, <<"ax", l>>, <<"+">>, <<"s">>>> : i \in Ids, l \in V \cup {-v : v \in V}}
Evs == {[e |-> "l", r |-> "rup", c |-> c, h |-> h] : c \in Cs, h \in {<<>>} \cup {<<i>> : i \in Ids} \cup {<<-1>>}}
       \cup {[e |-> "l", r |-> "red", c |-> c, w |-> w, begin |-> 0, sub |-> <<>>] : c \in Cs, w \in Ws}
       \cup {[e |-> "l", r |-> "pol", ops |-> o] : o \in Pols}
       \cup {[e |-> "l", r |-> x, c |-> c, id |-> i] : x \in {"ea", "ia"}, c \in Cs, i \in {0, -1}}
       \cup {[e |-> "l", r |-> "del", ids |-> <<i>>, begin |-> 0, sub |-> <<>>] : i \in Ids}
       \cup {[e |-> "l", r |-> "deld", ids |-> <<i>>, begin |-> 0, sub |-> <<>>] : i \in Ids}
Init == /\ \E i \in Inputs :
            /\ inp = {NormC(i[1]), NormC(i[2])}
            /\ st = [PrStep(PrBlank, [e |-> "new", n |-> 2, judge |-> 1, opt |-> 0, inputs |-> i, start |-> <<>>]).st EXCEPT !.phase = "rules"]
            /\ book = (1 :> NormC(i[1])) @@ (2 :> NormC(i[2]))
        /\ n = 0 /\ pure = TRUE
Next ==
    /\ n < Depth
    /\ n' = n + 1
    /\ inp' = inp
    /\ \E e \in Evs :
        LET r == PrStep(st, e) IN
        /\ r.ok
        /\ st' = r.st
        /\ pure' = (pure /\ e.r # "red")
        /\ book' = IF r.st.next > st.next THEN (st.next :> r.st.db[st.next]) @@ book ELSE book
Spec == Init /\ [][Next]_vars
-----------------------------------------------------------------------------
Asgs == [V -> BOOLEAN]
Val(a, l) == IF l > 0 THEN a[l] ELSE ~a[-l]
Holds(a, k) == FoldFunctionOnSet(Plus, 0, k.c, {l \in DOMAIN k.c : Val(a, l)}) >= k.d
Models(S) == {a \in Asgs : \A k \in S : Holds(a, k)}
Implies == pure => \A a \in Models(inp) : \A k \in Db(st) : Holds(a, k)
Preserves == Models(inp) # {} => Models(Db(st)) # {}
Denoted == \A i \in DOMAIN st.db : st.db[i] = book[i]
Positive == \A k \in Db(st) : \A l \in DOMAIN k.c : k.c[l] > 0 /\ -l \notin DOMAIN k.c
\* the syntactic tests used in judging are sound
Tests == \A k \in Db(st) : \A m \in Db(st) :
    /\ SameC(k, m) => Models({k}) = Models({m})
    /\ Implied(k, m) => Models({k}) \subseteq Models({m})
    /\ Models({Neg(k)}) = Asgs \ Models({k})
    /\ Models({Sat(k)}) = Models({k})
=============================================================================
