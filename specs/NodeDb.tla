------------------------------ MODULE NodeDb ------------------------------
(* The shared database of totalizer nodes. Every node known to the caller   *)
(* denotes a function from input assignments to a value: a literal counts   *)
(* one, a dummy nothing, an inner node the sum of what its connections      *)
(* transmit. Everything else follows from that: possible values, maximum,   *)
(* number of leaves, the meaning of each output literal and of the clauses  *)
(* that define it, and that removing nodes renames the rest consistently.   *)
EXTENDS Integers, Sequences, FiniteSets, TLC
FS == INSTANCE FiniteSetsExt
SX == INSTANCE SequencesExt
NdBlank == [masks |-> <<>>, h |-> <<>>, len |-> 0, o |-> <<>>, vars |-> {}, resv |-> {}, leaf |-> <<>>, dummy |-> -1]
Ok(st) == [ok |-> TRUE, st |-> st, why |-> ""]
Bad(st, why) == [ok |-> FALSE, st |-> st, why |-> why]
Range(s) == {s[i] : i \in DOMAIN s}
MaxOf(S) == IF S = {} THEN 0 ELSE CHOOSE x \in S : \A y \in S : y <= x
Sorted(S) == SX!SetToSortSeq(S, <)
VarOf(x) == IF x > 0 THEN x ELSE -x
LitTrue(p, x) == IF x > 0 THEN p[x] = 1 ELSE p[-x] = 0
RECURSIVE CeilLog(_)
CeilLog(n) == IF n <= 1 THEN 0 ELSE 1 + CeilLog((n + 1) \div 2)
----------------------------------------------------------------------------
\* what a connection transmits
Clip(c, x) == IF c.lim > 0 /\ x > c.lim THEN c.lim ELSE x
Map(c, v) == IF v <= c.off THEN 0 ELSE Clip(c, v - c.off) * c.mul
\* connections in the operations count handles from zero
Con(c) == [n |-> c.n + 1, off |-> c.off, mul |-> c.mul, lim |-> c.lim]
Cons(cs) == [i \in DOMAIN cs |-> Con(cs[i])]
Full(n) == [n |-> n, off |-> 0, mul |-> 1, lim |-> 0]
RECURSIVE Val(_, _, _), Vals(_, _), ConsVal(_, _, _, _), ConsVals(_, _, _), NLeaves(_, _), LeafBag(_, _, _), Reach(_, _)
ConsVal(st, cs, p, i) == IF i > Len(cs) THEN 0 ELSE Map(cs[i], Val(st, cs[i].n, p)) + ConsVal(st, cs, p, i + 1)
Val(st, n, p) ==
    LET d == st.h[n] IN
    CASE d.k = "leaf" -> IF LitTrue(p, d.lit) THEN 1 ELSE 0
      [] d.k = "lits" -> FS!MapThenSumSet(LAMBDA i : IF LitTrue(p, d.wl[i][1]) THEN d.wl[i][2] ELSE 0, DOMAIN d.wl) \div d.div
      [] d.k = "sum" -> ConsVal(st, d.cons, p, 1) \div d.div
      [] OTHER -> 0
RECURSIVE LitVals(_, _)
LitVals(wl, i) == IF i > Len(wl) THEN {0} ELSE LET S == LitVals(wl, i + 1) IN S \cup {x + wl[i][2] : x \in S}
ConsVals(st, cs, i) ==
    IF i > Len(cs) THEN {0}
    ELSE LET S == ConsVals(st, cs, i + 1) C == {0} \cup {Map(cs[i], v) : v \in Vals(st, cs[i].n)}
         IN {a + b : a \in S, b \in C}
Vals(st, n) ==
    LET d == st.h[n] IN
    CASE d.k = "leaf" -> {1}
      [] d.k = "lits" -> {x \div d.div : x \in LitVals(d.wl, 1) \ {0}}
      [] d.k = "sum" -> {x \div d.div : x \in ConsVals(st, d.cons, 1) \ {0}}
      [] OTHER -> {}
\* The values whose output literals follow from a selection of the true inputs. In a node over
\* inputs of different weights an output is only implied by selections that sum up to its value
\* exactly (users of such a node define all outputs in a range).
RECURSIVE Implied(_, _, _), ConsImplied(_, _, _, _), LitsImplied(_, _, _)
LitsImplied(wl, p, i) ==
    IF i > Len(wl) THEN {0}
    ELSE LET S == LitsImplied(wl, p, i + 1) IN IF LitTrue(p, wl[i][1]) THEN S \cup {x + wl[i][2] : x \in S} ELSE S
ConsImplied(st, cs, p, i) ==
    IF i > Len(cs) THEN {0}
    ELSE LET S == ConsImplied(st, cs, p, i + 1) c == cs[i]
             C == {0} \cup {(v - c.off) * c.mul : v \in {w \in Implied(st, c.n, p) : w > c.off /\ (c.lim = 0 \/ w <= c.off + c.lim)}}
         IN {a + b : a \in S, b \in C}
Implied(st, n, p) ==
    LET d == st.h[n] IN
    CASE d.k = "leaf" -> IF LitTrue(p, d.lit) THEN {1} ELSE {}
      [] d.k = "lits" -> {x \div d.div : x \in LitsImplied(d.wl, p, 1) \ {0}}
      [] d.k = "sum" -> {x \div d.div : x \in ConsImplied(st, d.cons, p, 1) \ {0}}
      [] OTHER -> {}
\* outputs a connection transmits
ConOuts(st, c) ==
    LET S == {v \in Vals(st, c.n) : v > c.off} IN
    IF c.lim = 0 THEN S ELSE {v \in S : Cardinality({w \in S : w <= v}) <= c.lim}
ConLeaves(st, c) == IF c.lim > 0 THEN c.lim ELSE IF c.off = 0 THEN NLeaves(st, c.n) ELSE Cardinality(ConOuts(st, c))
NLeaves(st, n) ==
    LET d == st.h[n] IN
    CASE d.k = "leaf" -> 1
      [] d.k = "lits" -> Len(d.wl)
      [] d.k = "sum" -> FS!MapThenSumSet(LAMBDA i : ConLeaves(st, d.cons[i]), DOMAIN d.cons)
      [] OTHER -> 0
Reach(st, n) == {n} \cup (IF st.h[n].k # "sum" THEN {} ELSE UNION {Reach(st, st.h[n].cons[i].n) : i \in DOMAIN st.h[n].cons})
\* weighted (pseudo) leaves as a sequence, order irrelevant
RECURSIVE Cat(_)
Cat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Cat(Tail(ss))
Pseudo(st, c, w) ==
    LET vs == Sorted(ConOuts(st, c)) id == st.h[c.n].id IN
    [i \in DOMAIN vs |-> << IF st.h[c.n].k = "leaf" THEN st.h[c.n].lit ELSE st.o[<<id, vs[i]>>].l,
                            w * (vs[i] - (IF i = 1 THEN c.off ELSE vs[i - 1])) >>]
LeafBag(st, n, w) ==
    LET d == st.h[n] IN
    CASE d.k = "leaf" -> << <<d.lit, w>> >>
      [] d.k = "lits" -> [i \in DOMAIN d.wl |-> <<d.wl[i][1], (w * d.wl[i][2]) \div d.div>>]
      [] d.k = "sum" -> Cat([i \in DOMAIN d.cons |->
            LET c == d.cons[i] x == (w * c.mul) \div d.div IN
            IF c.off > 0 \/ c.lim > 0 THEN Pseudo(st, c, x) ELSE LeafBag(st, c.n, x)])
      [] OTHER -> <<>>
SameBag(a, b) ==
    /\ Len(a) = Len(b)
    /\ \A x \in Range(a) \cup Range(b) : Cardinality({i \in DOMAIN a : a[i] = x}) = Cardinality({i \in DOMAIN b : b[i] = x})
----------------------------------------------------------------------------
\* all leaves and dummies of the database
LeafMap(lv) == [x \in {lv[i][2] : i \in DOMAIN lv} |-> CHOOSE id \in {lv[i][1] : i \in {j \in DOMAIN lv : lv[j][2] = x}} : TRUE]
Base(st, ev, lits, inner, dummy) ==
    LET new == lits \ DOMAIN st.leaf
        nd == IF dummy /\ st.dummy = -1 THEN 1 ELSE 0
        m == LeafMap(ev.lv) IN
    IF Cardinality(Range(ev.lv)) # Cardinality(DOMAIN m) THEN "a literal has two leaves"
    ELSE IF DOMAIN m # DOMAIN st.leaf \cup lits THEN "wrong leaves"
    ELSE IF \E x \in DOMAIN st.leaf : m[x] # st.leaf[x] THEN "a leaf moved"
    ELSE IF ev.len # st.len + Cardinality(new) + nd + inner THEN "wrong number of nodes"
    ELSE IF ev.iter # ev.len \/ (ev.empty = 1) # (ev.len = 0) THEN "inconsistent size"
    ELSE IF Len(ev.dm) # (IF st.dummy # -1 \/ dummy THEN 1 ELSE 0) THEN "wrong dummies"
    ELSE IF st.dummy # -1 /\ ev.dm[1] # st.dummy THEN "the dummy moved"
    ELSE ""
Push(st, ev, d) ==
    [st EXCEPT !.h = Append(@, d), !.len = ev.len, !.leaf = LeafMap(ev.lv), !.dummy = IF ev.dm = <<>> THEN -1 ELSE ev.dm[1]]
Node(id, k, dep) == [live |-> TRUE, id |-> id, k |-> k, lit |-> 0, wl |-> <<>>, cons |-> <<>>, div |-> 1, dep |-> dep]
MkLeaf(st, ev) ==
    LET b == Base(st, ev, {ev.o.lit}, 0, FALSE) IN
    IF b # "" THEN Bad(st, "leaf: " \o b)
    ELSE IF ev.id # LeafMap(ev.lv)[ev.o.lit] THEN Bad(st, "leaf: wrong node")
    ELSE IF ev.dep # 1 THEN Bad(st, "leaf: wrong depth")
    ELSE Ok(Push(st, ev, [Node(ev.id, "leaf", 1) EXCEPT !.lit = ev.o.lit]))
MkDummy(st, ev) ==
    LET b == Base(st, ev, {}, 0, TRUE) IN
    IF b # "" THEN Bad(st, "dummy: " \o b)
    ELSE IF ev.id # ev.dm[1] THEN Bad(st, "dummy: wrong node")
    ELSE Ok(Push(st, ev, Node(ev.id, "dummy", 1)))
MkInternal(st, ev) ==
    LET b == Base(st, ev, {}, 1, FALSE) l == Con(ev.o.l) r == Con(ev.o.r)
        dep == 1 + MaxOf({st.h[l.n].dep, st.h[r.n].dep}) IN
    IF b # "" THEN Bad(st, "internal: " \o b)
    ELSE IF ev.id # st.len THEN Bad(st, "internal: wrong node")
    ELSE IF ev.dep # dep THEN Bad(st, "internal: wrong depth")
    ELSE Ok(Push(st, ev, [Node(ev.id, "sum", dep) EXCEPT !.cons = <<l, r>>]))
LitNode(st, ev, id, wl, div) ==
    IF Len(wl) = 1 THEN [Node(id, "leaf", 1) EXCEPT !.lit = wl[1][1]]
    ELSE [Node(id, "lits", ev.dep) EXCEPT !.wl = wl, !.div = div]
MkTree(st, ev) ==
    LET n == Len(ev.o.lits)
        b == Base(st, ev, Range(ev.o.lits), IF n = 0 THEN 0 ELSE n - 1, FALSE)
        wl == [i \in 1..n |-> <<ev.o.lits[i], 1>>] IN
    IF b # "" THEN Bad(st, "tree: " \o b)
    ELSE IF n = 0 THEN IF ev.id = -1 THEN Ok(st) ELSE Bad(st, "tree: a node for nothing")
    ELSE IF n = 1 /\ ev.id # LeafMap(ev.lv)[ev.o.lits[1]] THEN Bad(st, "tree: wrong leaf")
    ELSE IF n > 1 /\ ev.id < st.len THEN Bad(st, "tree: wrong node")
    ELSE IF ev.dep # CeilLog(n) + 1 THEN Bad(st, "tree: wrong depth")
    ELSE Ok(Push(st, ev, LitNode(st, ev, ev.id, wl, 1)))
FreshCon(st, ev) == ev.con.id >= st.len /\ ev.con.id < ev.len /\ ev.con.off = 0 /\ ev.con.div = 1 /\ ev.con.lim = 0
MkWTree(st, ev) ==
    LET wl == ev.o.lits n == Len(wl) c == ev.con
        b == Base(st, ev, {wl[i][1] : i \in 1..n}, n - 1, FALSE) IN
    IF b # "" THEN Bad(st, "wtree: " \o b)
    ELSE IF n = 1 THEN
        IF c.id # LeafMap(ev.lv)[wl[1][1]] \/ c.mul # wl[1][2] \/ c.off # 0 \/ c.lim # 0 THEN Bad(st, "wtree: wrong connection to a leaf")
        ELSE Ok(Push(st, ev, LitNode(st, ev, c.id, wl, c.mul)))
    ELSE IF ~FreshCon(st, ev) THEN Bad(st, "wtree: wrong connection")
    ELSE IF \E i \in 1..n : wl[i][2] % c.mul # 0 THEN Bad(st, "wtree: wrong multiplier")
    ELSE IF ev.dep < CeilLog(n) + 1 \/ ev.dep > n THEN Bad(st, "wtree: wrong depth")
    ELSE Ok(Push(st, ev, LitNode(st, ev, c.id, wl, c.mul)))
MkMerge(st, ev) ==
    LET cs == Cons(ev.o.cons) n == Len(cs) c == ev.con
        b == Base(st, ev, {}, IF n = 0 THEN 0 ELSE n - 1, FALSE)
        dm == MaxOf({st.h[cs[i].n].dep : i \in 1..n}) IN
    IF b # "" THEN Bad(st, "merge: " \o b)
    ELSE IF n = 0 THEN IF ev.none = 1 THEN Ok(st) ELSE Bad(st, "merge: a node for nothing")
    ELSE IF ev.none = 1 THEN Bad(st, "merge: no result")
    ELSE IF n = 1 THEN
        IF c.id # st.h[cs[1].n].id \/ c.off # cs[1].off \/ c.mul # cs[1].mul \/ c.lim # cs[1].lim THEN Bad(st, "merge: single connection changed")
        ELSE Ok(Push(st, ev, st.h[cs[1].n]))
    ELSE IF ~FreshCon(st, ev) THEN Bad(st, "merge: wrong connection")
    ELSE IF \E i \in 1..n : cs[i].mul % c.mul # 0 THEN Bad(st, "merge: wrong multiplier")
    ELSE IF ev.dep < dm + 1 \/ ev.dep > dm + (IF ev.o.kind = "merge" THEN CeilLog(n) ELSE n - 1) THEN Bad(st, "merge: wrong depth")
    ELSE Ok(Push(st, ev, [Node(c.id, "sum", ev.dep) EXCEPT !.cons = cs, !.div = c.mul]))
----------------------------------------------------------------------------
Obs(st, ev) ==
    LET n == ev.o.h + 1 V == Vals(st, n) a == ev.o.a b == ev.o.b
        S(P(_)) == Sorted({v \in V : P(v)}) IN
    IF ev.max # MaxOf(V) THEN Bad(st, "obs: wrong maximum")
    ELSE IF ev.nout # Cardinality(V) THEN Bad(st, "obs: wrong number of outputs")
    ELSE IF ev.vals # Sorted(V) THEN Bad(st, "obs: wrong values")
    ELSE IF ev.ex # S(LAMBDA v : v >= a /\ v < b) \/ ev.inc # S(LAMBDA v : v >= a /\ v <= b) \/ ev.from # S(LAMBDA v : v >= a)
         \/ ev.to # SX!Reverse(S(LAMBDA v : v < b)) \/ ev.xx # S(LAMBDA v : v > a /\ v <= b) THEN Bad(st, "obs: wrong values in a range")
    ELSE IF ev.dep # st.h[n].dep THEN Bad(st, "obs: depth changed")
    ELSE IF ev.nl # NLeaves(st, n) THEN Bad(st, "obs: wrong number of leaves")
    ELSE IF (ev.leaf = 1) # (st.h[n].k = "leaf") THEN Bad(st, "obs: leaf or not")
    ELSE Ok(st)
----------------------------------------------------------------------------
\* output literals as reported: <<node, value>> -> literal and flags
OutMap(st, outs) ==
    [k \in {<<st.h[outs[i][1]].id, outs[i][2]>> : i \in DOMAIN outs} |->
        LET x == CHOOSE i \in DOMAIN outs : <<st.h[outs[i][1]].id, outs[i][2]>> = k
        IN [l |-> outs[x][3], i |-> outs[x][4], n |-> outs[x][5]]]
Outs(st, ev, what) ==
    LET m == OutMap(st, ev.outs) vs == st.vars \cup Range(ev.new) IN
    IF \E v \in Range(ev.new) : v \in st.vars \/ v <= Len(st.masks[1]) THEN Bad(st, what \o ": a variable is not new")
    ELSE IF \E k \in DOMAIN st.o : k \notin DOMAIN m THEN Bad(st, what \o ": an output lost its literal")
    ELSE IF \E k \in DOMAIN st.o : m[k].l # st.o[k].l THEN Bad(st, what \o ": an output got another literal")
    ELSE IF \E k \in DOMAIN st.o : m[k].i < st.o[k].i \/ m[k].n < st.o[k].n THEN Bad(st, what \o ": a definition was forgotten")
    ELSE IF \E k \in DOMAIN m : m[k].l <= 0 \/ m[k].l \notin vs THEN Bad(st, what \o ": an output literal is not a fresh variable")
    ELSE IF Cardinality({m[k].l : k \in DOMAIN m}) # Cardinality(DOMAIN m) THEN Bad(st, what \o ": two outputs share a literal")
    ELSE Ok([st EXCEPT !.o = m, !.vars = vs])
Flag(st, k, f) == k \in DOMAIN st.o /\ (IF f = "i" THEN st.o[k].i = 1 ELSE st.o[k].n = 1)
Need(o) == IF o.w = 1 THEN {"i"} ELSE CASE o.sem = "if" -> {"i"} [] o.sem = "only" -> {"n"} [] OTHER -> {"i", "n"}
Define(st, ev) ==
    LET n == ev.o.h + 1 d == st.h[n] v == ev.o.val k == <<d.id, v>>
        had == \A f \in Need(ev.o) : Flag(st, k, f)
        r == Outs(st, ev, "define") t == r.st IN
    IF ev.len # st.len THEN Bad(st, "define: changes nodes")
    ELSE IF ev.r = 99999 THEN IF ev.o.cap >= 0 THEN r ELSE Bad(st, "define: out of memory")
    ELSE IF ~r.ok THEN r
    ELSE IF v \notin Vals(st, n) THEN
        IF ev.r # 0 \/ ev.ncl # 0 THEN Bad(st, "define: an output that does not exist") ELSE r
    ELSE IF d.k = "leaf" THEN
        IF ev.r # d.lit \/ ev.ncl # 0 \/ ev.new # <<>> THEN Bad(st, "define: wrong literal of a leaf") ELSE r
    ELSE IF ev.r = 0 \/ k \notin DOMAIN t.o THEN Bad(st, "define: no literal for an output")
    ELSE IF t.o[k].l # ev.r THEN Bad(st, "define: returns another literal")
    ELSE IF \E f \in Need(ev.o) : ~Flag(t, k, f) THEN Bad(st, "define: output not marked as defined")
    ELSE IF had /\ (ev.ncl # 0 \/ ev.new # <<>>) THEN Bad(st, "define: defined again")
    ELSE IF ev.new # <<>> /\ (\E c \in st.resv : c.id = d.id /\ v \in c.vs) THEN Bad(st, "define: variable was not reserved")
    ELSE r
\* everything a reservation covers
RECURSIVE Cover(_, _)
Cover(st, c) ==
    LET d == st.h[c.n] IN
    IF d.k \in {"leaf", "dummy"} THEN {}
    ELSE {[id |-> d.id, vs |-> ConOuts(st, c)]} \cup
         (IF d.k = "sum" THEN UNION {Cover(st, d.cons[i]) : i \in DOMAIN d.cons} ELSE {})
Reserve(st, ev) ==
    LET cv == Cover(st, Con(ev.o.c)) r == Outs(st, ev, "reserve") IN
    IF ~r.ok THEN r
    ELSE IF ev.ncl # 0 THEN Bad(st, "reserve: adds clauses")
    ELSE IF \E x \in cv : \E v \in x.vs : <<x.id, v>> \notin DOMAIN r.st.o THEN Bad(st, "reserve: an output got no variable")
    ELSE Ok([r.st EXCEPT !.resv = @ \cup cv])
NodeReserve(st, ev) ==
    LET n == ev.o.h + 1 r == Outs(st, ev, "reserve")
        want == {v \in Vals(st, n) : v >= ev.o.a /\ v <= ev.o.b} IN
    IF ~r.ok THEN r
    ELSE IF st.h[n].k = "leaf" THEN r
    ELSE IF \E v \in want : <<st.h[n].id, v>> \notin DOMAIN r.st.o THEN Bad(st, "reserve: an output got no variable")
    ELSE IF {k \in DOMAIN r.st.o : k[1] = st.h[n].id /\ k[2] \notin want} # {k \in DOMAIN st.o : k[1] = st.h[n].id /\ k[2] \notin want}
        THEN Bad(st, "reserve: an output outside the range got a variable")
    ELSE r
Reset(st, ev) ==
    LET m == OutMap(st, ev.outs) s == ev.o.sem IN
    IF DOMAIN m # DOMAIN st.o \/ (\E k \in DOMAIN m : m[k].l # st.o[k].l) THEN Bad(st, "reset: literals changed")
    ELSE IF \E k \in DOMAIN m : m[k].i # (IF s = "only" THEN st.o[k].i ELSE 0) \/ m[k].n # (IF s = "if" THEN st.o[k].n ELSE 0)
        THEN Bad(st, "reset: wrong definitions forgotten")
    ELSE Ok([st EXCEPT !.o = m])
ResetVars(st, ev) ==
    IF ev.outs # <<>> THEN Bad(st, "reset: variables remain")
    ELSE Ok([st EXCEPT !.o = [k \in {} |-> 0], !.resv = {}])
Value(st, ev) ==
    IF \E m \in DOMAIN st.masks : ev.v[m] # Val(st, ev.o.h + 1, st.masks[m]) THEN Bad(st, "value: wrong value of a node") ELSE Ok(st)
LeavesE(st, ev) == IF SameBag(ev.l, LeafBag(st, ev.o.h + 1, 1)) THEN Ok(st) ELSE Bad(st, "leaves: wrong leaves")
Check(st, ev) ==
    LET RS == UNION {Reach(st, ev.o.roots[i] + 1) : i \in DOMAIN ev.o.roots}
        ids == {st.h[n].id : n \in RS}
        H(id) == CHOOSE n \in RS : st.h[n].id = id
        ks == {k \in DOMAIN st.o : k[1] \in ids} IN
    IF OutMap(st, ev.outs) # st.o THEN Bad(st, "check: outputs changed")
    ELSE IF \E i \in DOMAIN ev.tab : LET t == ev.tab[i] IN t.i # <<>> /\
            (\E m \in DOMAIN st.masks : t.i[m] = 1 /\ t.v \in Implied(st, t.h, st.masks[m])) THEN Bad(st, "check: output not implied by its value")
    ELSE IF \E i \in DOMAIN ev.tab : LET t == ev.tab[i] IN t.n # <<>> /\
            (\E m \in DOMAIN st.masks : Val(st, t.h, st.masks[m]) < t.v /\ t.n[m] = 1) THEN Bad(st, "check: output does not imply its value")
    ELSE IF \E k \in ks : LET n == H(k[1]) IN \E m \in DOMAIN st.masks :
            (IF Val(st, n, st.masks[m]) >= k[2] THEN st.o[k].l ELSE -st.o[k].l) \notin Range(ev.ext[m]) THEN Bad(st, "check: extension has a wrong value")
    ELSE IF \E m \in DOMAIN st.masks : \E x \in Range(ev.ext[m]) : -x \in Range(ev.ext[m]) THEN Bad(st, "check: extension is contradictory")
    ELSE IF \E m \in DOMAIN st.masks : ev.sat[m] = 0 THEN Bad(st, "check: clauses exclude an input assignment")
    ELSE Ok(st)
----------------------------------------------------------------------------
In(ev, i) == i >= ev.a /\ i <= ev.b
Sh(ev, i) == IF i > ev.b THEN i - (ev.b - ev.a + 1) ELSE i
Drain(st, ev) ==
    LET B == ev.before  \* references of node i - 1
        refs == {i \in DOMAIN B : i - 1 > ev.b /\ (\E x \in Range(B[i]) : In(ev, x))}
        keep == SelectSeq([i \in DOMAIN B |-> <<i - 1, B[i]>>], LAMBDA q : ~In(ev, q[1]))
        exp == [j \in DOMAIN keep |-> [x \in DOMAIN keep[j][2] |-> Sh(ev, keep[j][2][x])]]
        ids == [i \in DOMAIN st.h |-> IF ~st.h[i].live THEN -1 ELSE IF In(ev, st.h[i].id) THEN -1 ELSE Sh(ev, st.h[i].id)]
        hs == [i \in DOMAIN st.h |-> [st.h[i] EXCEPT !.live = ids[i] # -1, !.id = ids[i]]]
        lf == LeafMap(ev.lv)
        lfx == [x \in {y \in DOMAIN st.leaf : ~In(ev, st.leaf[y])} |-> Sh(ev, st.leaf[x])]
        dm == IF st.dummy = -1 \/ In(ev, st.dummy) THEN -1 ELSE Sh(ev, st.dummy)
        ks == {k \in DOMAIN st.o : ~In(ev, k[1])}
        o2 == [k \in {<<Sh(ev, k[1]), k[2]>> : k \in ks} |-> st.o[CHOOSE q \in ks : <<Sh(ev, q[1]), q[2]>> = k]]
        rs == {[id |-> Sh(ev, c.id), vs |-> c.vs] : c \in {c \in st.resv : ~In(ev, c.id)}}
        t == [st EXCEPT !.h = hs, !.len = @ - (ev.b - ev.a + 1), !.leaf = lfx, !.dummy = dm, !.o = o2, !.resv = rs] IN
    IF refs # {} THEN
        IF ev.n # -1 THEN Bad(st, "drain: removes referenced nodes")
        ELSE IF (ev.x[1] + 1) \notin refs \/ ev.x[2] \notin Range(B[ev.x[1] + 1]) \/ ~In(ev, ev.x[2]) THEN Bad(st, "drain: wrong error")
        ELSE IF ev.after # B \/ ev.len # st.len \/ lf # st.leaf \/ OutMap(st, ev.outs) # st.o THEN Bad(st, "drain: database changed although it failed")
        ELSE Ok(st)
    ELSE IF ev.n # ev.b - ev.a + 1 THEN Bad(st, "drain: wrong number of nodes")
    ELSE IF ev.len # t.len \/ ev.after # exp THEN Bad(st, "drain: references are wrong")
    ELSE IF lf # lfx THEN Bad(st, "drain: leaves are wrong")
    ELSE IF OutMap(t, ev.outs) # o2 THEN Bad(st, "drain: outputs are wrong")
    ELSE Ok(t)
Static(st, ev) == ev.e \in {"obs", "conlen", "value", "leaves", "check"} /\ ev.len # st.len
----------------------------------------------------------------------------
NdStep(st, ev) ==
    IF ev.e = "new" THEN
        IF "stub" \in DOMAIN ev THEN Ok(NdBlank)
        ELSE Ok([NdBlank EXCEPT !.masks = ev.masks, !.o = [k \in {} |-> 0], !.leaf = [k \in {} |-> 0]])
    ELSE IF ev.e = "panic" THEN Bad(st, "panic in " \o ev.op \o " " \o ev.msg)
    ELSE IF ev.e = "skip" THEN Ok([st EXCEPT !.h = Append(@, [Node(-1, "dummy", 1) EXCEPT !.live = FALSE])])
    ELSE IF Static(st, ev) THEN Bad(st, ev.e \o ": changes nodes")
    ELSE CASE ev.e = "leaf" -> MkLeaf(st, ev)
           [] ev.e = "dummy" -> MkDummy(st, ev)
           [] ev.e = "internal" -> MkInternal(st, ev)
           [] ev.e = "tree" -> MkTree(st, ev)
           [] ev.e = "wtree" -> MkWTree(st, ev)
           [] ev.e = "merge" -> MkMerge(st, ev)
           [] ev.e = "obs" -> Obs(st, ev)
           [] ev.e = "conlen" -> IF ev.n = Cardinality(ConOuts(st, Con(ev.o.c))) THEN Ok(st) ELSE Bad(st, "conlen: wrong number of transmitted literals")
           [] ev.e = "def" -> Define(st, ev)
           [] ev.e = "reserve" -> Reserve(st, ev)
           [] ev.e = "nreserve" -> NodeReserve(st, ev)
           [] ev.e = "reset" -> Reset(st, ev)
           [] ev.e = "resetv" -> ResetVars(st, ev)
           [] ev.e = "value" -> Value(st, ev)
           [] ev.e = "leaves" -> LeavesE(st, ev)
           [] ev.e = "check" -> Check(st, ev)
           [] ev.e = "drain" -> Drain(st, ev)
=============================================================================
