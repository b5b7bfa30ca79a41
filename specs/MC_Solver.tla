------------------------------ MODULE MC_Solver ------------------------------
(* All short call histories of a solver interface over two variables.       *)
(* Exploring: every answer the specification accepts is taken; the answers  *)
(* are compared with a ghost record of the history (the clauses added, the  *)
(* last query and its assumptions). Generating: each history once.          *)
EXTENDS Solver, Json
CONSTANTS B, Depth, Gen
VARIABLES st, hist, n, gcl, gq
vars == <<st, hist, n, gcl, gq>>

Clauses == {<<>>, <<1>>, <<-1>>, <<-2>>, <<1, 2>>, <<-1, 2>>, <<-1, -2>>, <<1, -2>>}
Asss == {<<>>, <<1>>, <<-1>>, <<-1, -2>>, <<2, 1>>, <<1, -1>>, <<2, 2>>}
NoAss == B = "kissat"
Ops == {[o |-> "add", cs |-> IF c = <<0>> THEN <<>> ELSE <<c>>, how |-> 0] : c \in Clauses \cup {<<0>>}}
       \cup {[o |-> "solve", as |-> FALSE, a |-> <<>>]}
       \cup (IF NoAss THEN {} ELSE {[o |-> "solve", as |-> TRUE, a |-> a] : a \in Asss})
       \cup (IF Gen THEN {} ELSE {[o |-> "vals", h |-> 2]} \cup (IF NoAss THEN {} ELSE {[o |-> "core"]}))
Names == {"Configuring", "Input", "Sat", "Unsat", "Unknown"}
Errs == {[k |-> "state", req |-> q, act |-> a] : q \in {"Input", "Sat", "Unsat"}, a \in Names}
ValEv(r, p) == LET s == IF r.k = "vals" THEN [k |-> "sol", a |-> p] ELSE r IN
    [e |-> "vals", h |-> 2, mxv |-> 2, r |-> r, sol |-> s, full |-> s, vv |-> IF r.k = "vals" THEN [k |-> "val", v |-> p[2]] ELSE r]
Neg(p) == [i \in 1..2 |-> IF p[i] = -1 THEN -1 ELSE 1 - p[i]]
Res(o) ==
    CASE o.o = "add" -> {[e |-> "add", cs |-> o.cs, r |-> r] : r \in {[k |-> "ok"]} \cup Errs}
      [] o.o = "solve" -> {[e |-> "solve", as |-> o.as, a |-> o.a, r |-> r, lrn |-> <<>>, calls |-> <<0, 0>>, dc |-> <<0, 0, 0>>] :
                              r \in {[k |-> "res", v |-> v] : v \in {"Sat", "Unsat", "Int"}} \cup Errs}
      [] o.o = "vals" -> {ValEv([k |-> "vals", p |-> p, n |-> Neg(p)], p) : p \in [1..2 -> {-1, 0, 1}]} \cup {ValEv(r, <<>>) : r \in Errs}
      [] o.o = "core" -> {[e |-> "core", r |-> [k |-> "core", c |-> c]] : c \in {<<>>, <<1>>, <<-1>>, <<2>>, <<-2>>, <<1, 2>>, <<-1, -2>>, <<1, -2>>, <<1, -1>>}}
                         \cup {[e |-> "core", r |-> r] : r \in Errs}
Ok(o) == {e \in Res(o) : SlvStep(st, e).ok}
\* generating: the answer of a correct solver
Honest(o) == LET S == Ok(o) IN CHOOSE e \in S : TRUE
Pick(o) == IF Gen THEN {Honest(o)} ELSE Ok(o)
Init == st = SlvStep(SlvBlank, [e |-> "new", b |-> B, nv |-> 2]).st /\ hist = <<>> /\ n = 0 /\ gcl = {} /\ gq = <<"none">>
Next ==
    /\ n < Depth
    /\ n' = n + 1
    /\ \E o \in Ops : \E e \in Pick(o) :
        /\ st' = SlvStep(st, e).st
        /\ hist' = IF Gen THEN Append(hist, o) ELSE <<>>
        /\ gcl' = IF o.o = "add" /\ e.r.k = "ok" THEN gcl \cup Ran(o.cs) ELSE gcl
        /\ gq' = IF o.o = "solve" /\ e.r.k = "res" THEN <<e.r.v, o.a>>
                 ELSE IF o.o = "add" /\ o.cs # <<>> /\ e.r.k = "ok" THEN <<"none">> ELSE gq
        /\ (Gen /\ n + 1 = Depth => o.o = "solve")
    /\ (Gen /\ n' = Depth => PrintT("SCEN " \o ToJson([b |-> B, nv |-> 2, ops |-> hist'])))
Spec == Init /\ [][Next]_vars
-----------------------------------------------------------------------------
All == SUBSET {1, 2}
Models(A) == {m \in All : \A c \in gcl : \E l \in Ran(c) : True(m, l)} \cap {m \in All : \A l \in A : True(m, l)}
Events(o) == {e \in Res(o) : SlvStep(st, e).ok}
Solves == {o \in Ops : o.o = "solve"}
\* an accepted verdict is the right one for the clauses added and the assumptions of the call
Verdicts == ~Gen => \A o \in Solves : \A e \in Events(o) :
    e.r.k = "res" => /\ e.r.v = "Sat" => Models(Ran(o.a)) # {}
                     /\ e.r.v = "Unsat" => Models(Ran(o.a)) = {}
                     /\ e.r.v # "Int"
\* values only after a satisfiable answer, and then every completion is a model of clauses and assumptions
Valued == ~Gen => \A e \in Events([o |-> "vals", h |-> 2]) :
    e.r.k = "vals" => gq[1] = "Sat" /\ Compl(e.r.p, 2) \subseteq Models(Ran(gq[2]))
\* a core only after an unsatisfiable answer; the negated assumptions in it contradict the clauses
Cored == ~Gen /\ ~NoAss => \A e \in Events([o |-> "core"]) :
    e.r.k = "core" => gq[1] = "Unsat" /\ Ran(e.r.c) \subseteq {-l : l \in Ran(gq[2])} /\ Models({-l : l \in Ran(e.r.c)}) = {}
\* a state error names a state the interface can be in, and is never the answer in the state that was asked for
Named == ~Gen => \A o \in Ops : \A e \in Events(o) :
    e.r.k = "state" => e.r.act # e.r.req /\ (gq[1] \in {"Sat", "Unsat"} => e.r.act \in {gq[1], "Input"} \/ Sim(B))
\* some answer is accepted in every situation: the specification can be implemented
Implementable == ~Gen => \A o \in Ops : Events(o) # {}
=============================================================================
