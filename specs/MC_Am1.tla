------------------------------- MODULE MC_Am1 -------------------------------
(* The at-most-one encodings as clause generators, checked against their    *)
(* meaning: for every length, algorithm, group size and sub-encoding the    *)
(* generated clauses are satisfiable under an input assignment exactly when *)
(* at most one input is true.                                               *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS MaxN, MaxG
VARIABLES alg, n, g, sub

Subs == {"pairwise", "ladder", "bitwise"}
Algs == Subs \cup {"commander", "bimander", "twoproduct"}

CeilDiv(a, b) == (a + b - 1) \div b
RECURSIVE Digits(_)
Digits(x) == IF x < 2 THEN 1 ELSE 1 + Digits(x \div 2)
Bit(x, k) == (x \div (2 ^ k)) % 2
\* a generator takes the inputs (a sequence of literals) and the last used variable,
\* and yields the clauses and the last used variable afterwards
Pairwise(ls, u) == [cl |-> {{-ls[i], -ls[j]} : i \in DOMAIN ls, j \in DOMAIN ls} \ {{-ls[i]} : i \in DOMAIN ls}, u |-> u]
Ladder(ls, u) ==
    IF Len(ls) <= 1 THEN [cl |-> {}, u |-> u] ELSE
    LET m == Len(ls) - 1
        a(i) == u + i IN
    [cl |-> {{-a(i + 1), a(i)} : i \in 1..(m - 1)}
            \cup {{-ls[i], a(i - 1)} : i \in 2..Len(ls)}
            \cup {{-ls[i], -a(i)} : i \in 1..m}, u |-> u + m]
Bitwise(ls, u) ==
    IF Len(ls) <= 1 THEN [cl |-> {}, u |-> u] ELSE
    LET p == Digits(Len(ls) - 1) IN
    [cl |-> {{-ls[i], IF Bit(i - 1, k) = 1 THEN u + 1 + k ELSE -(u + 1 + k)} : i \in DOMAIN ls, k \in 0..(p - 1)}, u |-> u + p]
Sub(s, ls, u) == IF s = "pairwise" THEN Pairwise(ls, u) ELSE IF s = "ladder" THEN Ladder(ls, u) ELSE Bitwise(ls, u)
Group(ls, G, i) == SubSeq(ls, (i - 1) * G + 1, IF i * G < Len(ls) THEN i * G ELSE Len(ls))
Elems(s) == {s[i] : i \in DOMAIN s}
\* groups 1..k encoded one after the other with the sub-encoding
RECURSIVE Groups(_, _, _, _, _)
Groups(s, ls, G, i, acc) ==
    IF i > CeilDiv(Len(ls), G) THEN acc
    ELSE LET r == Sub(s, Group(ls, G, i), acc.u) IN Groups(s, ls, G, i + 1, [cl |-> acc.cl \cup r.cl, u |-> r.u])
Commander(s, G, ls, u) ==
    IF Len(ls) <= 1 THEN [cl |-> {}, u |-> u] ELSE
    LET k == CeilDiv(Len(ls), G)
        com == [i \in 1..k |-> u + i]
        chan == UNION {{{-x, com[i]} : x \in Elems(Group(ls, G, i))} : i \in 1..k}
        gr == Groups(s, ls, G, 1, [cl |-> chan, u |-> u + k])
        top == Sub(s, com, gr.u) IN
    [cl |-> gr.cl \cup top.cl, u |-> top.u]
Bimander(s, G, ls, u) ==
    IF Len(ls) <= 1 THEN [cl |-> {}, u |-> u] ELSE
    LET k == CeilDiv(Len(ls), G)
        p == Digits(k - 1)
        chan == UNION {{{-x, IF Bit(i - 1, b) = 1 THEN u + 1 + b ELSE -(u + 1 + b)} : x \in Elems(Group(ls, G, i)), b \in 0..(p - 1)} : i \in 1..k} IN
    Groups(s, ls, G, 1, [cl |-> chan, u |-> u + p])
TwoProduct(s, ls, u) ==
    IF Len(ls) <= 1 THEN [cl |-> {}, u |-> u] ELSE
    LET p == CHOOSE x \in 1..Len(ls) : x * x <= Len(ls) /\ (x + 1) * (x + 1) > Len(ls)
        q == CeilDiv(Len(ls), p)
        row == [i \in 1..p |-> u + i]
        col == [i \in 1..q |-> u + p + i]
        chan == {{-ls[i], row[((i - 1) \div q) + 1]} : i \in DOMAIN ls} \cup {{-ls[i], col[((i - 1) % q) + 1]} : i \in DOMAIN ls}
        r == Sub(s, row, u + p + q)
        c == Sub(s, col, r.u) IN
    [cl |-> chan \cup r.cl \cup c.cl, u |-> c.u]

Gen(a, N, G, s) ==
    LET ls == [i \in 1..N |-> IF i % 3 = 0 THEN -i ELSE i] IN
    [ls |-> ls, r |-> IF a \in Subs THEN Sub(a, ls, N)
                      ELSE IF a = "commander" THEN Commander(s, G, ls, N)
                      ELSE IF a = "bimander" THEN Bimander(s, G, ls, N) ELSE TwoProduct(s, ls, N)]

\* satisfiability of a clause set under a partial assignment (set of true literals):
\* unit propagation and splitting
RECURSIVE Sat(_, _)
Reduce(cls, l) == {c \ {-l} : c \in {d \in cls : l \notin d}}
Sat(cls, todo) ==
    IF {} \in cls THEN FALSE
    ELSE IF todo # {} THEN LET l == CHOOSE x \in todo : TRUE IN Sat(Reduce(cls, l), todo \ {l})
    ELSE IF cls = {} THEN TRUE
    ELSE IF \E c \in cls : Cardinality(c) = 1
         THEN LET c == CHOOSE x \in cls : Cardinality(x) = 1 IN Sat(cls, c)
    ELSE LET c == CHOOSE x \in cls : TRUE
             l == CHOOSE x \in c : TRUE IN Sat(cls, {l}) \/ Sat(cls, {-l})
Correct(a, N, G, s) ==
    LET e == Gen(a, N, G, s) IN
    \A T \in SUBSET (1..N) :
        LET asg == {IF i \in T THEN i ELSE -i : i \in 1..N}
            cnt == Cardinality({i \in 1..N : e.ls[i] \in asg}) IN
        Sat(e.r.cl, asg) <=> cnt <= 1

Init == /\ alg \in Algs /\ n \in 0..MaxN /\ g \in 1..MaxG /\ sub \in Subs
        /\ (alg \in Subs => g = 1 /\ sub = "pairwise") /\ (alg = "twoproduct" => g = 1)
Next == UNCHANGED <<alg, n, g, sub>>
Spec == Init /\ [][Next]_<<alg, n, g, sub>>
MeansAtMostOne == Correct(alg, n, g, sub)
=============================================================================
