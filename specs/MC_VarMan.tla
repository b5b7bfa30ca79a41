------------------------------ MODULE MC_VarMan ------------------------------
(* All short histories of the variable managers.                            *)
(* Exploring (Gen = FALSE): whatever results the specification allows are   *)
(* taken, and what the property promises is checked on ghost state: a new   *)
(* variable was never used before, a renaming is injective and undone by    *)
(* its reverse, the maximum covers everything in use.                       *)
(* Generating (Gen = TRUE): each call history once, printed for replay on   *)
(* the real managers.                                                       *)
EXTENDS VarMan, Json
CONSTANTS Ty, Depth, Top, Gen
VARIABLES st, hist, n, used, clash
vars == <<st, hist, n, used, clash>>

Alive(s) == {i \in DOMAIN s.m : ~s.m[i].gone}
Ops(s) ==
    LET A == Alive(s) IN
    {[op |-> "make", ty |-> Ty, n |-> k, default |-> FALSE] : k \in IF Len(s.m) < 2 THEN 0..2 ELSE {}}
    \cup {[op |-> o, i |-> i] : o \in {"newvar"}, i \in A}
    \cup {[op |-> o, i |-> i, v |-> v] : o \in {"mark", "incr", "forget"}, i \in A, v \in 0..Top}
    \cup (IF Ty \in {"reindex", "rand"}
          THEN {[op |-> o, i |-> i, v |-> v, lit |-> TRUE, neg |-> FALSE] :
                    o \in {"reindex", "reverse"}, i \in {i \in A : Ty = "rand" => s.m[i].alt = Empty}, v \in 0..Top} ELSE {})
    \cup (IF Ty = "object" THEN {[op |-> "object", i |-> i, t |-> "i32", k |-> k] : i \in A, k \in 0..1} ELSE {})
    \cup {[op |-> "combine", i |-> p[1], j |-> p[2]] : p \in {q \in A \X A : q[1] # q[2]}}
\* the events by which a call may be answered (filtered by the specification)
Res(s, o) ==
    LET base(i) == [e |-> o.op, i |-> i]
        obs == {<<m, m + 1>> : m \in -1..(Top + Depth)}
        W(set) == {[x \in DOMAIN r \cup {"max", "used"} |-> IF x = "max" THEN q[1] ELSE IF x = "used" THEN q[2] ELSE r[x]]
                      : r \in set, q \in obs}
        V == -1..(Top + Depth) IN
    CASE o.op = "make" -> W({[e |-> "make", i |-> Len(s.m) + 1, ty |-> o.ty, n |-> o.n]})
      [] o.op = "newvar" -> W({[e |-> o.op, i |-> o.i, v |-> v] : v \in s.m[o.i].next..(s.m[o.i].next + 1)})
      [] o.op \in {"mark", "incr"} -> W({[e |-> o.op, i |-> o.i, arg |-> o.v, r |-> b] : b \in BOOLEAN})
      [] o.op = "forget" -> W({[e |-> o.op, i |-> o.i, arg |-> o.v]})
      [] o.op \in {"reindex", "reverse"} -> W({[e |-> o.op, i |-> o.i, arg |-> o.v, v |-> v, sign |-> TRUE] : v \in V})
      [] o.op = "object" -> W({[e |-> o.op, i |-> o.i, key |-> o.k, v |-> v] : v \in s.m[o.i].next..(s.m[o.i].next + 1)
                                  \cup Img(s.m[o.i].map)})
      [] o.op = "combine" -> W({[e |-> o.op, i |-> o.i, j |-> o.j]})
Mark(s, o) == \* combined managers are gone; a forgotten random renaming is not claimed
    CASE o.op = "combine" -> [s EXCEPT !.m[o.j].gone = TRUE]
      [] o.op = "forget" -> [s EXCEPT !.m[o.i].alt = (0 :> 0)]
      [] OTHER -> s
Steps(s, o) == {e \in Res(s, o) : VmStep(s, e).ok}
\* the variables of manager i in use, by what the events say
Use(u, o, e) ==
    CASE o.op = "make" -> Append(u, 0..(e.n - 1))
      [] o.op = "newvar" -> [u EXCEPT ![o.i] = @ \cup {e.v}]
      [] o.op = "mark" -> [u EXCEPT ![o.i] = @ \cup {o.v}]
      [] o.op \in {"reindex", "object"} -> [u EXCEPT ![o.i] = @ \cup {e.v}]
      [] o.op = "forget" -> [u EXCEPT ![o.i] = {x \in @ : x < o.v}]
      [] o.op = "combine" -> [u EXCEPT ![o.i] = @ \cup u[o.j]]
      [] OTHER -> u
Fresh(o, e) == o.op = "newvar" => e.v \notin used[o.i]
Out(o) == IF o.op = "make" THEN o
          ELSE IF o.op = "combine" THEN [o EXCEPT !.i = @ - 1, !.j = @ - 1]
          ELSE [o EXCEPT !.i = @ - 1]
Init == st = [m |-> <<>>] /\ hist = <<>> /\ n = 0 /\ used = <<>> /\ clash = FALSE
Next ==
    /\ n < Depth
    /\ n' = n + 1
    /\ \E o \in Ops(st) :
        /\ (n = 0 => o.op = "make")
        /\ IF Gen
           THEN LET S == Steps(st, o) IN
                /\ S # {}
                /\ LET e == CHOOSE x \in S : TRUE IN
                   /\ st' = Mark(VmStep(st, e).st, o)
                   /\ hist' = Append(hist, Out(o))
                   /\ UNCHANGED <<used, clash>>
           ELSE \E e \in Steps(st, o) :
                /\ st' = Mark(VmStep(st, e).st, o)
                /\ hist' = <<>>
                /\ used' = Use(used, o, e)
                /\ clash' = ~Fresh(o, e)
    /\ (Gen /\ n' = Depth => PrintT("SCEN " \o ToJson([ops |-> hist'])))
Spec == Init /\ [][Next]_vars
-----------------------------------------------------------------------------
NeverReused == ~clash
Covered == \A i \in Alive(st) : ~Gen => (used # <<>> => \A x \in used[i] : x < st.m[i].next)
\* combining two managers may give two keys one variable; before that renamings are injective
Injective == (\A i \in DOMAIN st.m : ~st.m[i].gone) =>
    \A i \in DOMAIN st.m : \A x, y \in DOMAIN st.m[i].map : st.m[i].map[x] = st.m[i].map[y] => x = y
\* no key renamed to a variable that counts as unused
InUse == \A i \in Alive(st) : st.m[i].ty # "rand" => \A x \in DOMAIN st.m[i].map : st.m[i].map[x] < st.m[i].next
\* a renamed variable is accepted back only as itself
ReverseInverts == \A i \in DOMAIN st.m : (~Gen /\ ~st.m[i].gone /\ (\A j \in DOMAIN st.m : ~st.m[j].gone)) =>
    \A x \in DOMAIN st.m[i].map :
        \A v \in -1..(Top + Depth) :
            VmStep(st, [e |-> "reverse", i |-> i, arg |-> st.m[i].map[x], v |-> v, sign |-> TRUE,
                        max |-> st.m[i].next - 1, used |-> st.m[i].next]).ok => v = x
=============================================================================
