-------------------------------- MODULE Big --------------------------------
(* Naturals beyond TLC's 32-bit integers: pairs <<hi, lo>> in base 10^9.    *)
EXTENDS Integers, Sequences
Base == 1000000000
B0 == <<0, 0>>
BInf == <<2000000001, 0>>
ToB(n) == <<n \div Base, n % Base>>
BAdd(a, b) == LET s == a[2] + b[2] IN
    IF a[1] >= 2000000000 \/ b[1] >= 2000000000 THEN <<2000000000, 0>>
    ELSE IF s >= Base THEN <<a[1] + b[1] + 1, s - Base>> ELSE <<a[1] + b[1], s>>
BLt(a, b) == a[1] < b[1] \/ (a[1] = b[1] /\ a[2] < b[2])
BLe(a, b) == a = b \/ BLt(a, b)
BSub(a, b) == IF a[2] >= b[2] THEN <<a[1] - b[1], a[2] - b[2]>> ELSE <<a[1] - b[1] - 1, a[2] + Base - b[2]>>
BMin(a, b) == IF BLt(b, a) THEN b ELSE a
BMax(a, b) == IF BLt(a, b) THEN b ELSE a
RECURSIVE BSumSeq(_, _)
BSumSeq(s, i) == IF i = 0 THEN B0 ELSE BAdd(BSumSeq(s, i - 1), s[i])
=============================================================================
