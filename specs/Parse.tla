------------------------------- MODULE Parse -------------------------------
(* The input languages (DIMACS CNF, both WCNF generations, MCNF, OPB) as a  *)
(* grammar with a semantics. A file is a sequence of lines, a line is a     *)
(* sequence of tokens; a token carries its kind (int, var, op, end, word),  *)
(* whether white space precedes it (sp), and the recorder's reading of its  *)
(* digits: the value as a pair big, the small value v, the ranges it fits.  *)
(* Items of a file: the meanings of its lines in order up to and including  *)
(* the first "err". "loose" marks inputs (odd spellings of integers, values *)
(* at the limits of the machine) for which only termination without panic   *)
(* is required.                                                             *)
EXTENDS Constr, Big, TLC
PaBlank == [masks |-> <<>>]
Ok(st) == [ok |-> TRUE, st |-> st, why |-> ""]
Bad(st, why) == [ok |-> FALSE, st |-> st, why |-> why]
IsInt(t) == t.k = "int"
Word(t, w) == t.k = "word" /\ t.w = w
IsLit(t) == IsInt(t) /\ t.i32 /\ t.v # 0
Zero(t) == IsInt(t) /\ t.big = <<0, 0>>
IsUint(t) == IsInt(t) /\ ~t.sign /\ t.u64
Err == [k |-> "err"]
Loose == [k |-> "loose"]
Cmt == [k |-> "cmt"]
Odd(l) == \E i \in DOMAIN l : IsInt(l[i]) /\ ~l[i].canon
Comment(l, c) == l[1].k = "word" /\ l[1].c = c
\* Numbers of any size with a sign: a pair of naturals <<plus, minus>>
SLe(a, b) == BLe(BAdd(a[1], b[2]), BAdd(b[1], a[2]))
SEq(a, b) == BAdd(a[1], b[2]) = BAdd(b[1], a[2])
SAdd(a, b) == <<BAdd(a[1], b[1]), BAdd(a[2], b[2])>>
S0 == <<B0, B0>>
S1 == <<<<0, 1>>, B0>>
Sgn(t) == IF t.neg THEN <<B0, t.big>> ELSE <<t.big, B0>>
SNeg(a) == <<a[2], a[1]>>
-----------------------------------------------------------------------------
(* DIMACS clauses: literals, optionally a final 0                           *)
Spaced(l, i) == \A j \in i..Len(l) : l[j].sp
ClauseAt(l, i, mk(_)) ==
    LET n == IF i <= Len(l) /\ Zero(l[Len(l)]) THEN Len(l) - 1 ELSE Len(l) IN
    IF (\A j \in i..n : IsLit(l[j])) /\ Spaced(l, i) THEN mk([j \in 1..(n - i + 1) |-> l[i + j - 1].v]) ELSE Err
Hard(c) == [k |-> "hard", w |-> B0, o |-> 0, l |-> c]
\* a clause after a weight needs some further token on its line
Weighted(l, i, o) ==
    IF i > Len(l) \/ ~IsUint(l[i]) THEN Err
    ELSE IF i = Len(l) THEN Err
    ELSE LET mk(c) == [k |-> "soft", w |-> l[i].big, o |-> o, l |-> c] IN ClauseAt(l, i + 1, mk)
HardLine(l) == IF Len(l) = 1 \/ ~Word(l[1], "h") THEN Err ELSE ClauseAt(l, 2, Hard)
CnfLine(l) == IF Comment(l, "c") THEN Cmt ELSE IF Odd(l) THEN Loose ELSE ClauseAt(l, 1, Hard)
PostLine(l) ==
    IF Comment(l, "c") THEN Cmt ELSE IF Odd(l) THEN Loose
    ELSE IF l[1].k = "word" THEN HardLine(l) ELSE Weighted(l, 1, 1)
PreLine(l, top) ==
    IF Comment(l, "c") THEN Cmt ELSE IF Odd(l) THEN Loose
    ELSE LET r == Weighted(l, 1, 1) IN
         IF r.k = "soft" /\ BLe(top, r.w) THEN Hard(r.l) ELSE r
\* the objective index may be glued to the o
McnfLine(l) ==
    IF Comment(l, "c") THEN Cmt ELSE IF Odd(l) THEN Loose
    ELSE IF Word(l[1], "h") THEN HardLine(l)
    ELSE IF Word(l[1], "o") /\ Len(l) >= 2 /\ IsUint(l[2]) /\ ~Zero(l[2]) /\ Spaced(l, 3) THEN
         IF ~l[2].i32 THEN Loose ELSE Weighted(l, 3, l[2].v)
    ELSE Err
\* header lines
PLine(l, name, n) ==
    Len(l) = 2 + n /\ Word(l[1], "p") /\ Word(l[2], name) /\ Spaced(l, 2)
    /\ (\A i \in 3..Len(l) : IsUint(l[i])) /\ l[3].u32
Dense(ls) == SelectSeq(ls, LAMBDA l : l # <<>>)
RECURSIVE FirstBody(_, _)
FirstBody(ls, i) == IF i > Len(ls) THEN 0 ELSE IF Comment(ls[i], "c") THEN FirstBody(ls, i + 1) ELSE i
RECURSIVE Upto(_, _, _)
Upto(res, i, acc) ==
    IF i > Len(res) THEN acc
    ELSE IF res[i].k \in {"err", "loose"} THEN Append(acc, res[i]) ELSE Upto(res, i + 1, Append(acc, res[i]))
From(ls, i, f(_)) == [j \in 1..(Len(ls) - i + 1) |-> f(ls[i + j - 1])]
\* the meaning of a file: items, and the number of variables a header declares
File(items, hv) == [items |-> items, hv |-> hv]
CnfFile(ls) ==
    LET h == FirstBody(ls, 1) IN
    IF h = 0 THEN File(<<Err>>, 0)
    ELSE IF Odd(ls[h]) THEN File(<<Loose>>, 0)
    ELSE IF ~PLine(ls[h], "cnf", 2) THEN File(<<Err>>, 0)
    ELSE IF ~ls[h][3].i32 THEN File(<<Loose>>, 0)
    ELSE File(Upto(From(ls, h + 1, CnfLine), 1, <<>>), ls[h][3].v)
WcnfFile(ls) ==
    LET h == FirstBody(ls, 1) IN
    IF h = 0 THEN File(<<>>, 0)
    ELSE IF Odd(ls[h]) THEN File(<<Loose>>, 0)
    ELSE IF PostLine(ls[h]).k # "err" THEN File(Upto(From(ls, h, PostLine), 1, <<>>), 0)
    ELSE IF ~PLine(ls[h], "wcnf", 3) THEN File(<<Err>>, 0)
    ELSE IF ~ls[h][3].i32 THEN File(<<Loose>>, 0)
    ELSE LET L(x) == PreLine(x, ls[h][5].big) IN File(Upto(From(ls, h + 1, L), 1, <<>>), ls[h][3].v)
McnfFile(ls) == File(Upto(From(ls, 1, McnfLine), 1, <<>>), 0)
-----------------------------------------------------------------------------
(* OPB. A statement is a comment (to the end of the line), an objective or  *)
(* a constraint, ended by ";" or the end of the line.                       *)
IsCoeff(t) == IsInt(t) /\ t.i64
\* number of terms from position i on
RECURSIVE Terms(_, _)
Terms(l, i) ==
    IF i + 1 > Len(l) \/ ~IsCoeff(l[i]) \/ l[i + 1].k # "var" \/ ~l[i + 1].sp \/ l[i + 1].bad THEN 0
    ELSE 1 + (IF i + 2 <= Len(l) /\ IsInt(l[i + 2]) /\ l[i + 2].sp THEN Terms(l, i + 2) ELSE 0)
TermsOf(l, i, n) == [j \in 1..n |-> [c |-> Sgn(l[i + 2 * j - 2]), l |-> l[i + 2 * j - 1].lit]]
BigVal(t) == IsInt(t) /\ ~t.small
Ended(l, i) == i > Len(l) \/ l[i].k = "end"
\* result of reading a statement at position i: the item and where the next one begins
St(item, nx) == [item |-> item, nx |-> nx]
Constraint(l, i) ==
    LET n == Terms(l, i) p == i + 2 * n IN
    IF p + 1 > Len(l) \/ l[p].k # "op" \/ l[p].op \notin {"<=", ">=", "<", ">", "="} \/ ~IsCoeff(l[p + 1]) \/ ~Ended(l, p + 2) THEN St(Err, 0)
    ELSE St([k |-> "pb", op |-> l[p].op, t |-> TermsOf(l, i, n), b |-> Sgn(l[p + 1])], p + 3)
Objective(l, i) ==
    LET n == Terms(l, i + 1) p == i + 1 + 2 * n IN
    IF ~Ended(l, p) THEN St(Err, 0)
    ELSE St([k |-> "obj", max |-> Word(l[i], "max:"), t |-> TermsOf(l, i + 1, n)], p + 1)
Statement(l, i) ==
    IF l[i].k = "word" THEN
        IF l[i].c = "*" THEN St(Cmt, Len(l) + 1)
        ELSE IF l[i].w \in {"min:", "max:"} THEN Objective(l, i) ELSE St(Err, 0)
    ELSE Constraint(l, i)
RECURSIVE OpbLine(_, _)
OpbLine(l, i) ==
    IF i > Len(l) THEN <<>>
    ELSE LET s == Statement(l, i) IN
         IF s.item.k = "err" THEN <<s.item>> ELSE <<s.item>> \o OpbLine(l, s.nx)
\* limits of the machine: literals are range checked, sums have to stay representable
RECURSIVE FlatTo(_, _)
FlatTo(ls, i) ==
    IF i > Len(ls) THEN <<>>
    ELSE IF ls[i] = <<>> THEN FlatTo(ls, i + 1)
    ELSE LET c == ls[i][1].k = "word" /\ ls[i][1].c = "*"
             lo == ~c /\ (Odd(ls[i]) \/ \E j \in DOMAIN ls[i] : BigVal(ls[i][j]) \/ (ls[i][j].k = "var" /\ ls[i][j].loose)) IN
         IF lo THEN <<Loose>> ELSE OpbLine(ls[i], 1) \o FlatTo(ls, i + 1)
OpbFile(ls) == File(Upto(FlatTo(ls, 1), 1, <<>>), 0)
-----------------------------------------------------------------------------
FileOf(fmt, ls) ==
    CASE fmt = "cnf" -> CnfFile(Dense(ls)) [] fmt = "wcnf" -> WcnfFile(Dense(ls))
      [] fmt = "mcnf" -> McnfFile(Dense(ls)) [] OTHER -> OpbFile(ls)
\* literals beyond the enumerated variables count as if all those variables were false
True(mask, x) == IF x > 0 THEN x <= Len(mask) /\ mask[x] = 1 ELSE -x > Len(mask) \/ mask[-x] = 0
RECURSIVE TSum(_, _, _)
TSum(mask, t, i) == IF i = 0 THEN S0 ELSE SAdd(IF True(mask, t[i].l) THEN t[i].c ELSE S0, TSum(mask, t, i - 1))
PbHolds(mask, c) ==
    LET s == TSum(mask, c.t, Len(c.t)) IN
    CASE c.op = "<=" -> SLe(s, c.b) [] c.op = ">=" -> SLe(c.b, s) [] c.op = "=" -> SEq(s, c.b)
      [] c.op = "<" -> SLe(SAdd(s, S1), c.b) [] OTHER -> SLe(SAdd(c.b, S1), s)
ClTrue(mask, c) == \E i \in DOMAIN c : True(mask, c[i])
\* an item as parsed agrees with the item as meant
SameItem(masks, x, y) ==
    CASE x.k \in {"cmt", "err"} -> y.k = x.k
      [] x.k = "hard" -> y.k = "hard" /\ y.l = x.l
      [] x.k = "soft" -> y.k = "soft" /\ y.l = x.l /\ y.w = x.w /\ y.o = x.o
      [] x.k = "pb" -> y.k = "pb" /\ \A m \in DOMAIN masks : (y.sat[m] = 1) = PbHolds(masks[m], x)
      [] x.k = "obj" -> y.k = "obj" /\ y.max = x.max /\ \A m \in DOMAIN masks : SEq(y.cost[m], TSum(masks[m], x.t, Len(x.t)))
LooseAt(f) == f.items # <<>> /\ f.items[Len(f.items)].k = "loose"
ErrAt(f) == f.items # <<>> /\ f.items[Len(f.items)].k = "err"
StepItems(st, ev) ==
    LET f == FileOf(ev.fmt, ev.lines)
        n == IF LooseAt(f) THEN Len(f.items) - 1 ELSE Len(f.items)
        m == Len(ev.items) IN
    IF ~ev.term THEN Bad(st, ev.fmt \o ": iterating over the parser does not terminate")
    ELSE IF LooseAt(f) /\ (m < n) THEN Bad(st, ev.fmt \o ": items missing")
    ELSE IF ~LooseAt(f) /\ m # n THEN
         IF ErrAt(f) THEN Bad(st, ev.fmt \o ": malformed input is accepted or reported at the wrong place")
         ELSE Bad(st, ev.fmt \o ": well-formed input is rejected")
    ELSE IF \E i \in 1..n : ~SameItem(st.masks, f.items[i], ev.items[i]) THEN
         LET i == CHOOSE i \in 1..n : ~SameItem(st.masks, f.items[i], ev.items[i]) IN
         IF f.items[i].k = "err" THEN Bad(st, ev.fmt \o ": malformed input is accepted")
         ELSE IF ev.items[i].k = "err" THEN Bad(st, ev.fmt \o ": well-formed input is rejected")
         ELSE Bad(st, ev.fmt \o ": wrong meaning of a line")
    ELSE Ok(st)
-----------------------------------------------------------------------------
(* Instances                                                                *)
Models(masks, items) == {m \in DOMAIN masks : \A i \in DOMAIN items :
    /\ items[i].k = "hard" => ClTrue(masks[m], items[i].l)
    /\ items[i].k = "pb" => PbHolds(masks[m], items[i])}
RECURSIVE SoftCost(_, _, _, _)
SoftCost(mask, items, o, i) ==
    IF i = 0 THEN S0
    ELSE SAdd(IF items[i].k = "soft" /\ items[i].o = o /\ ~ClTrue(mask, items[i].l) THEN <<items[i].w, B0>> ELSE S0,
              SoftCost(mask, items, o, i - 1))
ObjItems(items) == SelectSeq(items, LAMBDA x : x.k = "obj")
\* objectives are minimized
ObjCost(mask, x) == LET s == TSum(mask, x.t, Len(x.t)) IN IF x.max THEN SNeg(s) ELSE s
SMax(S) == IF S = {} THEN 0 ELSE CHOOSE x \in S : \A y \in S : y <= x
NObj(fmt, ty, items) ==
    IF ty = "S" THEN 0 ELSE IF fmt = "opb" THEN Len(ObjItems(items)) ELSE IF ty = "O" THEN 1
    ELSE SMax({items[i].o : i \in {j \in DOMAIN items : items[j].k = "soft"}})
Vars(x) ==
    IF x.k \in {"hard"} \/ (x.k = "soft" /\ x.w # B0) THEN {IF x.l[i] > 0 THEN x.l[i] ELSE -x.l[i] : i \in DOMAIN x.l}
    ELSE IF x.k \in {"pb", "obj"} THEN {IF x.t[i].l > 0 THEN x.t[i].l ELSE -x.t[i].l : i \in {j \in DOMAIN x.t : ~SEq(x.t[j].c, S0)}}
    ELSE {}
StepInst(st, ev) ==
    LET f == FileOf(ev.fmt, ev.lines)
        no == NObj(ev.fmt, ev.ty, f.items)
        reject == ErrAt(f) \/ (ev.fmt = "opb" /\ ((ev.ty = "S" /\ ObjItems(f.items) # <<>>) \/ (ev.ty = "O" /\ Len(ObjItems(f.items)) # 1)))
        what == ev.fmt \o " as " \o ev.ty
        cost(m, k) == IF ev.fmt = "opb" THEN ObjCost(st.masks[m], ObjItems(f.items)[k]) ELSE SoftCost(st.masks[m], f.items, k, Len(f.items)) IN
    IF LooseAt(f) \/ ev.big THEN Ok(st)
    ELSE IF reject THEN IF ev.err THEN Ok(st) ELSE Bad(st, what \o ": malformed file is read")
    ELSE IF ev.err THEN Bad(st, what \o ": well-formed file is rejected")
    ELSE IF {m \in DOMAIN st.masks : ev.sat[m] = 1} # Models(st.masks, f.items) THEN Bad(st, what \o ": wrong models")
    ELSE IF Len(ev.costs) # no THEN Bad(st, what \o ": wrong number of objectives")
    ELSE IF \E k \in 1..no : \E m \in DOMAIN st.masks : ~SEq(ev.costs[k][m], cost(m, k)) THEN Bad(st, what \o ": wrong objective")
    ELSE IF ev.used < SMax({f.hv} \cup UNION {Vars(f.items[i]) : i \in DOMAIN f.items}) THEN Bad(st, what \o ": variables are not counted")
    ELSE Ok(st)
-----------------------------------------------------------------------------
(* Single literals                                                          *)
StepLit(st, ev) ==
    LET t == ev.tok IN
    IF ev.fmt = "opb"
    THEN IF t.k = "var" /\ t.loose THEN Ok(st)
         ELSE IF t.k = "var" /\ ~t.bad THEN IF ev.r = t.lit THEN Ok(st) ELSE Bad(st, "parse_lit: wrong literal")
         ELSE IF ev.r = 0 THEN Ok(st) ELSE Bad(st, "parse_lit: malformed literal accepted")
    ELSE IF IsInt(t) /\ ~t.canon THEN Ok(st)
         ELSE IF IsLit(t) THEN IF ev.r = t.v THEN Ok(st) ELSE Bad(st, "parse_lit: wrong literal")
         ELSE IF ev.r = 0 THEN Ok(st) ELSE Bad(st, "parse_lit: malformed literal accepted")
PaStep(st, ev) ==
    CASE ev.e = "new" -> Ok([masks |-> ev.masks])
      [] ev.e = "panic" -> Bad(st, ev.op \o ": panic")
      [] ev.e = "items" -> StepItems(st, ev)
      [] ev.e = "inst" -> StepInst(st, ev)
      [] ev.e = "lit" -> StepLit(st, ev)
      \* the end of a compressed file is missing
      [] ev.e = "cut" -> IF ev.ok THEN Bad(st, ev.fmt \o ev.ext \o ": incomplete file is read") ELSE Ok(st)
      [] ev.e = "raw" -> IF ev.term THEN Ok(st) ELSE Bad(st, "iterating over the parser does not terminate")
      [] OTHER -> Bad(st, ev.e)
=============================================================================
