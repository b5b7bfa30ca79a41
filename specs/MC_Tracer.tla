------------------------------ MODULE MC_Tracer ------------------------------
(* A solver that reports to a proof tracer whatever the specification of     *)
(* the interface accepts: any derivation, deletion, weakening, restoration   *)
(* and conclusion. Checked: the accepted reports are a proof - everything    *)
(* live is implied by the user's clauses and every conclusion is true.       *)
(* Generating: the calls of the user, for replay on the real solver.         *)
EXTENDS Tracer, SequencesExt, Json
CONSTANTS NV, Adds, Steps, Ants, Gen, Depth
VARIABLES st, pc, n, adds, hist
vars == <<st, pc, n, adds, hist>>
Lits == {l \in -NV..NV : l # 0}
Cls == {c \in SUBSET Lits : ~Taut(c)}
Assigns == {a \in SUBSET Lits : ~Taut(a) /\ Cardinality(a) = NV}
Sat(cs) == \E a \in Assigns : \A c \in cs : c \cap a # {}
Implies(cs, d) == ~Sat(cs \cup {{-l} : l \in d})
Seq1(S) == SetToSeq(S)
RECURSIVE Do(_, _)
Do(s, evs) == IF evs = <<>> THEN Ok(s) ELSE LET r == TrStep(s, Head(evs)) IN IF r.ok THEN Do(r.st, Tail(evs)) ELSE r
Live == DOMAIN st.t[1].act
Next0 == Cardinality(Known(st.t[1])) + 1
FreshIds == {CHOOSE i \in 1..(Next0) : i \notin Known(st.t[1])}
Start == Do(TrBlank, <<[e |-> "u-connect", ants |-> Ants], [e |-> "ret", op |-> "connect", v |-> 1]>>).st
Step(evs, p) == LET r == Do(st, evs) IN r.ok /\ st' = r.st /\ pc' = p
Hints == IF Ants THEN UNION {[1..k -> Live \cup DOMAIN st.t[1].acl] : k \in 1..2} ELSE {<<>>}
Add == \E c \in Cls, id \in FreshIds :
    /\ pc = "idle" /\ adds < Adds /\ adds' = adds + 1 /\ UNCHANGED <<n, hist>>
    /\ Step(<<[e |-> "u-add", c |-> Seq1(c)], [e |-> "orig", t |-> 1, id |-> id, red |-> FALSE, c |-> Seq1(c), rest |-> FALSE],
              [e |-> "ret", op |-> "add", v |-> 0]>>, "idle")
Tmp == \E c \in Cls :
    /\ pc = "idle" /\ adds < Adds /\ adds' = adds + 1 /\ UNCHANGED <<n, hist>>
    /\ Step(<<[e |-> "u-tmp", c |-> Seq1(c)], [e |-> "constr", t |-> 1, c |-> Seq1(c)], [e |-> "ret", op |-> "tmp", v |-> 0]>>, "idle")
Solve == \E a \in {a \in SUBSET Lits : Cardinality(a) <= 2} :
    /\ pc = "idle" /\ UNCHANGED <<n, adds, hist>>
    /\ Step(<<[e |-> "u-solve", a |-> Seq1(a)]>> \o [k \in 1..Cardinality(a) |-> [e |-> "asm", t |-> 1, l |-> Seq1(a)[k]]]
            \o <<[e |-> "query", t |-> 1]>>, "search")
Report(ev) == n < Steps /\ n' = n + 1 /\ UNCHANGED <<adds, hist>> /\ Step(<<ev>>, pc)
Derive == pc \in {"search"} /\ \E c \in Cls, id \in FreshIds, h \in Hints :
    Report([e |-> "der", t |-> 1, id |-> id, red |-> TRUE, c |-> Seq1(c), ants |-> h])
Delete == pc = "search" /\ \E id \in Live : Report([e |-> "del", t |-> 1, id |-> id, red |-> TRUE, c |-> Seq1(st.t[1].act[id])])
Weaken == pc = "search" /\ \E id \in Live : Report([e |-> "weak", t |-> 1, id |-> id, c |-> Seq1(st.t[1].act[id])])
Restore == pc = "search" /\ \E id \in DOMAIN st.t[1].weak :
    Report([e |-> "orig", t |-> 1, id |-> id, red |-> FALSE, c |-> Seq1(st.t[1].weak[id]), rest |-> TRUE])
Assume == pc = "search" /\ \E c \in Cls, id \in FreshIds, h \in Hints :
    Report([e |-> "asmcl", t |-> 1, id |-> id, c |-> Seq1(c), ants |-> h])
Status == pc = "search" /\ UNCHANGED <<n, adds, hist>> /\ \E r \in {"sat", "unsat", "int"} : Step(<<[e |-> "status", t |-> 1, r |-> r, id |-> 0]>>, "concl")
Conclude ==
    /\ pc = "concl" /\ UNCHANGED <<n, adds, hist>>
    /\ \/ \E k \in {"conflict", "assumptions", "constraint"}, ids \in SUBSET (Live \cup DOMAIN st.t[1].acl) :
            Cardinality(ids) <= 2 /\ Step(<<[e |-> "cunsat", t |-> 1, k |-> k, ids |-> Seq1(ids)]>>, "ret")
       \/ \E m \in SUBSET Lits : Step(<<[e |-> "csat", t |-> 1, m |-> Seq1(m)]>>, "ret")
       \/ Step(<<[e |-> "cunk", t |-> 1, m |-> <<>>]>>, "ret")
Return == pc = "ret" /\ UNCHANGED <<n, adds, hist>>
    /\ \E r \in {"sat", "unsat", "int"}, core \in SUBSET Lits :
          (r # "unsat" => core = {})
          /\ Step(<<[e |-> "ret", op |-> "solve", v |-> [r |-> r, core |-> Seq1(core)]], [e |-> "reset", t |-> 1]>>, "idle")
\* the calls of a user
Canon == {c \in Cls : 1 <= Cardinality(c)}
User == {[op |-> "add", c |-> Seq1(c)] : c \in Canon} \cup {[op |-> "tmp", c |-> Seq1(c)] : c \in Canon}
        \cup {[op |-> o, a |-> Seq1(a), n |-> 1] : o \in {"solve", "simplify"}, a \in Assigns \cup {{}} \cup {{l} : l \in Lits}}
        \cup {[op |-> "connect", ants |-> Ants], [op |-> "disconnect", i |-> 0, wrong |-> FALSE], [op |-> "disconnect", i |-> 0, wrong |-> TRUE], [op |-> "peek", i |-> 0]}
HasH(op) == \E k \in DOMAIN hist : hist[k].op = op
Usable(o) == /\ (hist = <<>> <=> o.op = "connect")
             /\ (o.op \in {"peek", "disconnect"} => ~HasH("disconnect"))
             /\ (o.op = "peek" => ~HasH("peek"))
UserCall == /\ Gen /\ n < Depth /\ n' = n + 1 /\ UNCHANGED <<st, pc, adds>>
        /\ \E o \in User : Usable(o) /\ hist' = Append(hist, o)
        /\ (n' = Depth => PrintT("SCEN " \o ToJson([ops |-> hist'])))
Init == st = Start /\ pc = "idle" /\ n = 0 /\ adds = 0 /\ hist = <<>>
Next == \/ UserCall
        \/ ~Gen /\ (Add \/ Tmp \/ Solve \/ Derive \/ Delete \/ Weaken \/ Restore \/ Assume \/ Status \/ Conclude \/ Return)
Spec == Init /\ [][Next]_vars
-----------------------------------------------------------------------------
T == st.t[1]
\* the number of reported events is irrelevant
Seen == <<[st EXCEPT !.t[1].n = 0], pc, n, adds, hist>>
Sound == \A c \in Range(T.act) \cup Range(T.weak) \cup Range(T.acl) : Implies(st.u, c)
Units(S) == {{l} : l \in S}
True == pc = "ret" =>
    CASE T.co = "conflict" -> ~Sat(st.u)
      [] T.co = "assumptions" -> ~Sat(st.u \cup Units(T.a))
      [] T.co = "constraint" -> ~Sat(st.u \cup st.tmp \cup Units(T.a))
      [] T.co = "sat" -> Sat(st.u \cup st.tmp \cup Units(T.a))
      [] OTHER -> TRUE
=============================================================================
