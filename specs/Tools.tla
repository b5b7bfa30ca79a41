------------------------------- MODULE Tools -------------------------------
(* The command line tools. The state is the problem an input file           *)
(* describes: the feasible assignments (indices into masks) and the cost of *)
(* each assignment under every objective. A tool run either describes a new *)
(* file (the same feasible assignments and costs up to a constant, up to a  *)
(* permutation for the shuffler, split into objectives of different rank    *)
(* for the splitter), or judges, lists or propagates assignments. The       *)
(* generators describe the solutions of a combinatorial problem (st.g).     *)
EXTENDS Constr, TLC
FS == INSTANCE FiniteSetsExt
TlBlank == [masks |-> <<>>, mods |-> {}, costs |-> <<>>, n |-> 0, cs |-> <<>>, offs |-> <<>>, g |-> [k |-> ""], last |-> <<>>]
Ok(st) == [ok |-> TRUE, st |-> st, why |-> ""]
Bad(st, why) == [ok |-> FALSE, st |-> st, why |-> why]
Falsified(mask, c) == \A i \in DOMAIN c : ~LitTrue(mask, c[i])
CostOf(mask, softs, k) ==
    FS!MapThenSumSet(LAMBDA i : IF softs[i].k = k - 1 /\ Falsified(mask, softs[i].c) THEN softs[i].w ELSE 0, DOMAIN softs)
StepNew(ev) ==
    Ok([TlBlank EXCEPT !.masks = ev.masks, !.n = ev.n, !.cs = ev.cs, !.offs = ev.offs, !.g = ev.g,
        !.mods = {m \in DOMAIN ev.masks : \A i \in DOMAIN ev.cs : Holds(ev.masks[m], ev.cs[i])},
        !.costs = [k \in 1..ev.n |-> [m \in DOMAIN ev.masks |-> ev.offs[k] + CostOf(ev.masks[m], ev.softs, k)]]])
-----------------------------------------------------------------------------
(* Descriptions of a problem: d.sat (per mask) and d.costs (per objective)  *)
Feasible(d) == {m \in DOMAIN d.sat : d.sat[m] = 1}
SameCosts(mods, want, got, exact) ==
    \A a, b \in mods : got[a] - want[a] = IF exact THEN 0 ELSE got[b] - want[b]
Describes(st, d, n, mods, costs, exact) ==
    IF Len(d.sat) # Len(st.masks) THEN "unknown variables appear"
    ELSE IF Feasible(d) # mods THEN "feasible assignments changed"
    ELSE IF n >= 0 /\ Len(d.costs) # n THEN "wrong number of objectives"
    ELSE IF n >= 0 /\ \E k \in 1..n : ~SameCosts(mods, costs[k], d.costs[k], exact) THEN "costs changed"
    ELSE ""
\* the common part: the tool succeeds and writes a readable file
Ran(ev, rc) ==
    IF ev.panic THEN "panic"
    ELSE IF ev.rc # rc THEN IF rc = 0 THEN "fails" ELSE "wrong exit status"
    ELSE ""
Wrote(ev, rc) == IF Ran(ev, rc) # "" THEN Ran(ev, rc) ELSE IF ~ev.ok THEN "written file is malformed" ELSE ""
Judge(st, ev, why) == IF why = "" THEN Ok(st) ELSE Bad(st, ev.tool \o ": " \o why)
Max(a, b) == IF a < b THEN b ELSE a
\* an MCNF file shows objectives only through their soft clauses
StepConv(st, ev) ==
    LET w == Wrote(ev, 0) k == Len(ev.d.costs)
        n == IF ev.x.fmt = "cnf" THEN 0 ELSE IF ev.x.fmt = "mcnf" /\ k < st.n THEN k ELSE st.n
        flat(j) == \A a, b \in st.mods : st.costs[j][a] = st.costs[j][b] IN
    Judge(st, ev, IF w # "" THEN w
        ELSE IF \E j \in n + 1..st.n : ev.x.fmt # "cnf" /\ ~flat(j) THEN "objective is lost"
        ELSE Describes(st, ev.d, n, st.mods, st.costs, ev.x.exact))
-----------------------------------------------------------------------------
(* Shuffling: the same up to one permutation of the variables               *)
RECURSIVE IdxTo(_, _, _)
IdxTo(mask, p, i) == IF i = 0 THEN 1 ELSE mask[i] * 2 ^ (p[i] - 1) + IdxTo(mask, p, i - 1)
StepShuf(st, ev) ==
    LET w == Wrote(ev, 0) nv == Len(st.masks[1])
        img(p, m) == IdxTo(st.masks[m], p, nv)
        k == Len(ev.d.costs)
        good(p) ==
          /\ {img(p, m) : m \in st.mods} = Feasible(ev.d)
          /\ \A j \in 1..k : \A a, b \in st.mods : ev.d.costs[j][img(p, a)] - st.costs[j][a] = ev.d.costs[j][img(p, b)] - st.costs[j][b]
        flat(j) == \A a, b \in st.mods : st.costs[j][a] = st.costs[j][b] IN
    Judge(st, ev, IF w # "" THEN w
        ELSE IF k > st.n THEN "wrong number of objectives"
        ELSE IF \E j \in k + 1..st.n : ~flat(j) THEN "objective is lost"
        ELSE IF ev.d.nv > nv THEN "variables added"
        ELSE IF ~\E p \in Permutations(1..nv) : good(p) THEN "not the same instance up to renaming" ELSE "")
-----------------------------------------------------------------------------
(* Splitting: the weighted sum of the objectives is the original one, and   *)
(* comparing by the objectives, the last first, is comparing by the sum     *)
RECURSIVE Lex(_, _, _, _)
Lex(c, a, b, k) == IF k = 0 THEN FALSE ELSE IF c[k][a] # c[k][b] THEN c[k][a] < c[k][b] ELSE Lex(c, a, b, k - 1)
StepSplit(st, ev) ==
    LET k == Len(ev.d.costs)
        rc == IF ev.some /\ k > 1 THEN 0 ELSE 1
        w == IF ev.some THEN Wrote(ev, rc) ELSE Ran(ev, rc)
        sum(m) == FS!MapThenSumSet(LAMBDA j : ev.mults[j] * ev.d.costs[j][m], 1..k) IN
    Judge(st, ev, IF w # "" THEN w
        ELSE IF ~ev.some THEN IF ev.x.dump THEN "nothing is written" ELSE ""
        ELSE IF ~ev.x.dump /\ k <= 1 THEN "file is written although there is no split"
        ELSE IF Describes(st, ev.d, -1, st.mods, st.costs, FALSE) # "" THEN Describes(st, ev.d, -1, st.mods, st.costs, FALSE)
        ELSE IF k = 0 THEN IF \E a, b \in st.mods : st.costs[1][a] # st.costs[1][b] THEN "objective is lost" ELSE ""
        ELSE IF ev.x.stats /\ Len(ev.mults) < k THEN "wrong number of objectives is reported"
        ELSE IF ev.x.stats /\ \E a, b \in st.mods : sum(a) - st.costs[1][a] # sum(b) - st.costs[1][b] THEN "objectives do not add up to the original one"
        ELSE IF \E a, b \in st.mods : (st.costs[1][a] < st.costs[1][b]) # Lex(ev.d.costs, a, b, k) THEN "objectives do not rank as the original one"
        ELSE "")
-----------------------------------------------------------------------------
(* Checking, enumerating, propagating                                       *)
Compl(st, a) == {m \in DOMAIN st.masks : \A v \in DOMAIN st.masks[m] : v \in DOMAIN a => a[v] \in {-1, st.masks[m][v]}}
StepCheck(st, ev) ==
    LET c == Compl(st, ev.x.a) total == Cardinality(c) = 1 IN
    Judge(st, ev, IF ev.panic THEN "panic"
        ELSE IF ev.acc THEN
             IF c \cap st.mods = {} THEN "infeasible assignment is accepted"
             ELSE IF ev.rc # 0 THEN "wrong exit status"
             ELSE IF total /\ \E k \in 1..st.n : ev.vals[k] # st.costs[k][CHOOSE m \in c : TRUE] THEN "wrong objective value"
             ELSE IF Len(ev.vals) # st.n THEN "wrong number of objective values"
             ELSE ""
        ELSE IF ev.rc = 0 THEN "wrong exit status"
        ELSE IF total /\ c \subseteq st.mods THEN "feasible assignment is rejected"
        ELSE IF ~ev.unsat THEN "fails" ELSE "")
StepEnum(st, ev) ==
    LET w == Ran(ev, 0)
        want == Cardinality(st.mods) cnt == IF ev.x.limit >= 0 /\ ev.x.limit < want THEN ev.x.limit ELSE want
        at(i) == Compl(st, ev.ms[i]) IN
    Judge(st, ev, IF w # "" THEN w
        ELSE IF ev.junk THEN "unknown output"
        ELSE IF \E i \in DOMAIN ev.ms : Cardinality(at(i)) # 1 THEN "assignment is not complete"
        ELSE IF \E i \in DOMAIN ev.ms : ~(at(i) \subseteq st.mods) THEN "assignment is no model"
        ELSE IF \E i, j \in DOMAIN ev.ms : i # j /\ at(i) = at(j) THEN "model is listed twice"
        ELSE IF Len(ev.ms) # cnt THEN IF Len(ev.ms) < cnt THEN "model is missing" ELSE "too many models"
        ELSE IF ev.x.objs /\ st.n > 0 /\ (Len(ev.os) # cnt \/ \E i \in DOMAIN ev.os : Len(ev.os[i]) # st.n
                \/ \E k \in 1..st.n : ev.os[i][k] # st.costs[k][CHOOSE m \in at(i) : TRUE]) THEN "wrong objective value"
        ELSE IF (~ev.x.objs \/ st.n = 0) /\ ev.os # <<>> THEN "unknown output"
        ELSE "")
\* closure of a set of literals under unit propagation in clauses
RECURSIVE Close(_, _)
Close(cls, L) ==
    LET new == UNION {LET c == cls[i] open == {j \in DOMAIN c.l : -c.l[j] \notin L} IN
                      IF Cardinality({c.l[j] : j \in open}) = 1 THEN {c.l[CHOOSE j \in open : TRUE]} ELSE {} : i \in DOMAIN cls} \ L IN
    IF new = {} THEN L ELSE Close(cls, L \cup new)
Confl(cls, L) == (\E l \in L : -l \in L) \/ \E i \in DOMAIN cls : \A j \in DOMAIN cls[i].l : -cls[i].l[j] \in L
Under(st, A) == {m \in st.mods : \A l \in A : LitTrue(st.masks[m], l)}
StepProp(st, ev) ==
    LET A == Range(ev.x.a)
        L == Range(ev.ls) nv == Len(st.masks[1])
        own == {l \in L : l \in -nv..nv /\ l # 0}
        S == Under(st, A)
        unit == \A i \in DOMAIN st.cs : st.cs[i].k = "cl"
        C == Close(st.cs, A) top == Close(st.cs, {}) IN
    Judge(st, ev, IF ev.panic THEN "panic"
        ELSE IF ev.confl THEN IF S # {} THEN "conflict for compatible assumptions" ELSE IF ev.rc = 0 THEN "wrong exit status" ELSE ""
        ELSE IF ev.rc # 0 THEN "fails"
        ELSE IF 0 \in L THEN "unknown output"
        ELSE IF \E l \in own : ~\A m \in S : LitTrue(st.masks[m], l) THEN "literal is not implied"
        ELSE IF unit /\ Confl(st.cs, C) THEN "conflict is missed"
        ELSE IF unit /\ ~(L \subseteq C) THEN "literal is not propagated"
        ELSE IF unit /\ ~(C \ (A \cup top) \subseteq L) THEN "implied literal is missing"
        ELSE "")
-----------------------------------------------------------------------------
(* Generated problems: g describes the combinatorial problem                *)
Chosen(mask) == {i \in DOMAIN mask : mask[i] = 1}
SumOver(S, F(_)) == FS!MapThenSumSet(F, S)
\* knapsack: items 1..n with weights g.w, values g.v[k]; what is left behind costs
KnMods(st) == {m \in DOMAIN st.masks : SumOver(Chosen(st.masks[m]), LAMBDA i : st.g.w[i]) <= st.g.cap}
KnCost(st, k, m) == SumOver(DOMAIN st.g.w \ Chosen(st.masks[m]), LAMBDA i : st.g.v[k][i])
\* assignment: variable (t-1)*n + a says that task t goes to agent a
AsVar(g, t, a) == (t - 1) * g.n + a
AsMods(st) == {m \in DOMAIN st.masks :
    /\ \A t \in 1..st.g.n : Cardinality({a \in 1..st.g.n : st.masks[m][AsVar(st.g, t, a)] = 1}) = 1
    /\ \A a \in 1..st.g.n : Cardinality({t \in 1..st.g.n : st.masks[m][AsVar(st.g, t, a)] = 1}) = 1}
AsCost(st, k, m) == SumOver({<<t, a>> \in (1..st.g.n) \X (1..st.g.n) : st.masks[m][AsVar(st.g, t, a)] = 1}, LAMBDA x : st.g.c[k][x[1]][x[2]])
\* facility location: customer c uses facility f; used facilities are open
FlVar(g, c, f) == (c - 1) * g.nf + f
FlMods(st) == {m \in DOMAIN st.masks : \A c \in 1..st.g.nc :
    /\ Cardinality({f \in 1..st.g.nf : st.masks[m][FlVar(st.g, c, f)] = 1}) = 1
    /\ \A f \in 1..st.g.nf : st.masks[m][FlVar(st.g, c, f)] = 1 => st.masks[m][FlVar(st.g, st.g.nc + 1, f)] = 1}
FlCost(st, k, m) ==
    SumOver({<<c, f>> \in (1..st.g.nc) \X (1..st.g.nf) : st.masks[m][FlVar(st.g, c, f)] = 1}, LAMBDA x : st.g.c[k][x[1]][x[2]])
    + SumOver({f \in 1..st.g.nf : st.masks[m][FlVar(st.g, st.g.nc + 1, f)] = 1}, LAMBDA f : st.g.o[k][f])
\* clustering of 1..n: pairs g.e of [i, j, t, w] with t one of ml, cl, sim, dis
Clusterings(st) == {P \in [1..st.g.n -> 1..st.g.n] : \A i \in DOMAIN st.g.e :
    /\ st.g.e[i].t = "ml" => P[st.g.e[i].i] = P[st.g.e[i].j]
    /\ st.g.e[i].t = "cl" => P[st.g.e[i].i] # P[st.g.e[i].j]}
Apart(st, P) == SumOver({i \in DOMAIN st.g.e : st.g.e[i].t = "sim" /\ P[st.g.e[i].i] # P[st.g.e[i].j]}, LAMBDA i : st.g.e[i].w)
Together(st, P) == SumOver({i \in DOMAIN st.g.e : st.g.e[i].t = "dis" /\ P[st.g.e[i].i] = P[st.g.e[i].j]}, LAMBDA i : st.g.e[i].w)
StepCluster(st, ev) ==
    LET w == Wrote(ev, 0) n == ev.d.n
        pad(v, i) == IF i \in DOMAIN v THEN v[i] ELSE 0
        want == {IF ev.x.single THEN <<Apart(st, P) + Together(st, P), 0>> ELSE <<Apart(st, P), Together(st, P)>> : P \in Clusterings(st)}
        got == {<<pad(ev.d.vecs[i], 1), pad(ev.d.vecs[i], 2)>> : i \in DOMAIN ev.d.vecs} IN
    Judge(st, ev, IF w # "" THEN "clustering: " \o w
        ELSE IF n > 2 \/ (ev.x.single /\ n > 1) THEN "clustering: wrong number of objectives"
        ELSE IF got \ want # {} THEN "clustering: costs no clustering has"
        ELSE IF want \ got # {} THEN "clustering: costs of a clustering are missing"
        ELSE "")
StepGen(st, ev) ==
    LET g == st.g p == ev.x.p w == Wrote(ev, 0)
        of(M, C(_, _, _)) == [mods |-> M, costs |-> [k \in 1..g.p |-> [m \in DOMAIN st.masks |-> C(st, k, m)]]]
        d == CASE g.k = "knap" -> of(KnMods(st), KnCost) [] g.k = "assign" -> of(AsMods(st), AsCost) [] g.k = "facil" -> of(FlMods(st), FlCost)
        sumd == [m \in DOMAIN st.masks |-> SumOver(1..g.p, LAMBDA k : d.costs[k][m])]
        n == IF ev.x.fmt = "mcnf" /\ Len(ev.d.costs) < g.p THEN Len(ev.d.costs) ELSE g.p IN
    Judge(st, ev, IF w # "" THEN p \o ": " \o w
        ELSE LET r == IF ev.x.fmt = "wcnf" THEN Describes(st, ev.d, 1, d.mods, <<sumd>>, FALSE) ELSE Describes(st, ev.d, n, d.mods, d.costs, FALSE) IN
             IF r = "" THEN "" ELSE p \o ": " \o r)
\* a random knapsack: values in range, and the same for the same seed
StepRand(st, ev) ==
    LET w == Wrote(ev, 0) g == st.g c == ev.d.costs
        single(i) == 1 + 2 ^ (i - 1)
        val(k, i) == c[k][1] - c[k][single(i)]
        ok(i) == ev.d.sat[single(i)] = 1 IN
    IF w # "" THEN Judge(st, ev, "random knapsack: " \o w)
    ELSE IF Len(ev.d.sat) # Len(st.masks) \/ Len(c) # g.p THEN Judge(st, ev, "random knapsack: wrong number of items or objectives")
    ELSE IF ev.d.sat[1] # 1 THEN Judge(st, ev, "random knapsack: nothing fits")
    ELSE IF \E k \in 1..g.p : \E i \in 1..g.n : ok(i) /\ (val(k, i) < g.vmin \/ val(k, i) > g.vmax) THEN Judge(st, ev, "random knapsack: value out of range")
    ELSE IF \E m \in Feasible(ev.d) : \E i \in DOMAIN st.masks[m] : st.masks[m][i] = 1 /\ ev.d.sat[m - 2 ^ (i - 1)] = 0 THEN Judge(st, ev, "random knapsack: not a capacity constraint")
    ELSE IF st.last # <<>> /\ (st.last[1].sat # ev.d.sat \/ \E k \in 1..g.p : ~SameCosts(Feasible(ev.d), st.last[1].costs[k], c[k], FALSE))
         THEN Judge(st, ev, "random knapsack: different problems for the same seed")
    ELSE Ok([st EXCEPT !.last = <<ev.d>>])
\* input whose announced and actual sizes differ, or with something unexpected in it
StepRefuse(st, ev) ==
    Judge(st, ev, IF ev.panic THEN ev.x.p \o ": panic on malformed input"
        ELSE IF ev.rc = -99 THEN ev.x.p \o ": malformed input is read forever"
        ELSE IF ev.rc = 0 THEN ev.x.p \o ": malformed input is accepted"
        ELSE "")
TlStep(st, ev) ==
    CASE ev.e = "new" -> StepNew(ev)
      [] ev.e = "panic" -> Bad(st, ev.op \o ": panic")
      [] ev.e = "conv" -> StepConv(st, ev)
      [] ev.e = "shuf" -> StepShuf(st, ev)
      [] ev.e = "split" -> StepSplit(st, ev)
      [] ev.e = "check" -> StepCheck(st, ev)
      [] ev.e = "enum" -> StepEnum(st, ev)
      [] ev.e = "prop" -> StepProp(st, ev)
      [] ev.e = "bad" -> StepRefuse(st, ev)
      [] ev.e = "gen" -> IF st.g.k = "clus" THEN StepCluster(st, ev) ELSE IF st.g.k = "rand" THEN StepRand(st, ev) ELSE StepGen(st, ev)
      [] OTHER -> Bad(st, ev.e)
=============================================================================
