-------------------------------- MODULE Num --------------------------------
(***************************************************************************)
(* Exact arithmetic.  TLC's integers have 32 bits, the library's values    *)
(* are Decimals of 28 significant digits, so naturals are little-endian    *)
(* sequences of base-1000 limbs (no trailing zero limb; <<>> is 0) and     *)
(* values are signed rationals of such naturals.                           *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt

LOCAL Base == 1000

RECURSIVE BigOf(_)
BigOf(n) == IF n = 0 THEN <<>> ELSE <<n % Base>> \o BigOf(n \div Base)

RECURSIVE BigTrim(_)
BigTrim(s) == IF s = <<>> THEN <<>>
              ELSE IF s[Len(s)] = 0 THEN BigTrim(SubSeq(s, 1, Len(s) - 1)) ELSE s

LOCAL Limb(a, i) == IF i \in 1..Len(a) THEN a[i] ELSE 0
LOCAL MaxI(x, y) == IF x < y THEN y ELSE x
LOCAL MinI(x, y) == IF x < y THEN x ELSE y

(* columns of non-negative integers, each below 2^31 - 10^6, to limbs *)
LOCAL Carry(cols) ==
    LET r == FoldLeft(LAMBDA acc, c :
                 LET t == acc.c + c IN [s |-> Append(acc.s, t % Base), c |-> t \div Base],
                 [s |-> <<>>, c |-> 0], cols)
    IN  BigTrim(r.s \o BigOf(r.c))

BigAdd(a, b) ==
    IF a = <<>> THEN b ELSE IF b = <<>> THEN a
    ELSE Carry([i \in 1..MaxI(Len(a), Len(b)) |-> Limb(a, i) + Limb(b, i)])

BigMul(a, b) ==
    IF a = <<>> \/ b = <<>> THEN <<>>
    ELSE LET la == Len(a)
             lb == Len(b)
             Col(k) == LET lo == MaxI(1, k + 1 - lb)
                           hi == MinI(la, k)
                       IN  FoldLeft(LAMBDA acc, x : acc + x, 0,
                                    [j \in 1..(hi - lo + 1) |->
                                        a[lo + j - 1] * b[k + 2 - lo - j]])
         IN  Carry([k \in 1..(la + lb - 1) |-> Col(k)])

(* a - b for a >= b *)
BigSub(a, b) ==
    IF b = <<>> THEN a
    ELSE LET r == FoldLeft(LAMBDA acc, i :
                      LET t == a[i] - Limb(b, i) - acc.c
                      IN  IF t < 0 THEN [s |-> Append(acc.s, t + Base), c |-> 1]
                                   ELSE [s |-> Append(acc.s, t), c |-> 0],
                      [s |-> <<>>, c |-> 0], [i \in 1..Len(a) |-> i])
         IN  BigTrim(r.s)

RECURSIVE CmpFrom(_, _, _)
LOCAL CmpAt(a, b, i) == IF a[i] < b[i] THEN -1 ELSE IF a[i] > b[i] THEN 1 ELSE 0
CmpFrom(a, b, i) == IF i = 0 THEN 0
                    ELSE LET c == CmpAt(a, b, i) IN IF c # 0 THEN c ELSE CmpFrom(a, b, i - 1)
BigCmp(a, b) == IF Len(a) < Len(b) THEN -1
                ELSE IF Len(a) > Len(b) THEN 1 ELSE CmpFrom(a, b, Len(a))

BigShift(a, k) == IF a = <<>> THEN <<>> ELSE [i \in 1..k |-> 0] \o a    \* a * 1000^k

(* small limb sequences back to an integer (at most 3 limbs) *)
LOCAL IntOf(a) == Limb(a, 1) + Base * (Limb(a, 2) + Base * Limb(a, 3))

RECURSIVE GCD(_, _)
GCD(x, y) == IF y = 0 THEN x ELSE GCD(y, x % y)

----------------------------------------------------------------------------
(* signed rationals *)

LOCAL QMake(neg, n, d) ==
    IF n = <<>> THEN [neg |-> FALSE, n |-> <<>>, d |-> <<1>>]
    ELSE IF Len(n) <= 3 /\ Len(d) <= 3
         THEN LET g == GCD(IntOf(n), IntOf(d))
              IN  [neg |-> neg, n |-> BigOf(IntOf(n) \div g), d |-> BigOf(IntOf(d) \div g)]
         ELSE [neg |-> neg, n |-> n, d |-> d]

Q(n, d) == QMake(n < 0, BigOf(IF n < 0 THEN -n ELSE n), BigOf(d))      \* d > 0
QInt(n) == Q(n, 1)
QZero == QInt(0)
QOne == QInt(1)

QNeg(x) == IF x.n = <<>> THEN x ELSE [x EXCEPT !.neg = ~x.neg]
QAdd(x, y) ==
    LET xn == IF x.d = y.d THEN x.n ELSE BigMul(x.n, y.d)
        yn == IF x.d = y.d THEN y.n ELSE BigMul(y.n, x.d)
        dd == IF x.d = y.d THEN x.d ELSE BigMul(x.d, y.d)
    IN  IF x.neg = y.neg THEN QMake(x.neg, BigAdd(xn, yn), dd)
        ELSE IF BigCmp(xn, yn) >= 0 THEN QMake(x.neg, BigSub(xn, yn), dd)
        ELSE QMake(y.neg, BigSub(yn, xn), dd)
QSub(x, y) == QAdd(x, QNeg(y))
QMul(x, y) == QMake(x.neg # y.neg, BigMul(x.n, y.n), BigMul(x.d, y.d))
QDiv(x, y) == QMake(x.neg # y.neg, BigMul(x.n, y.d), BigMul(x.d, y.n)) \* y # 0
QCmp(x, y) == LET z == QSub(x, y) IN IF z.n = <<>> THEN 0 ELSE IF z.neg THEN -1 ELSE 1
QEq(x, y) == QCmp(x, y) = 0
QLe(x, y) == QCmp(x, y) <= 0
QLt(x, y) == QCmp(x, y) < 0
QSum(seq) == FoldLeft(LAMBDA acc, x : QAdd(acc, x), QZero, seq)
QOf(r) == Q(r[1], r[2])                                    \* a logged <<n, d>>

(***************************************************************************)
(* An observed number is logged as [k |-> "num", neg, m, e]: the exact     *)
(* decimal (-1)^neg * m * 1000^-e.  Observed(v) is its rational.           *)
(* Close(v, x): v is x up to the rounding of the library's Decimals:       *)
(* |v - x| <= 10^-21 * (1 + |x|).                                          *)
(***************************************************************************)
IsNum(v) == v.k = "num"
Observed(v) == [neg |-> v.neg /\ v.m # <<>>, n |-> v.m, d |-> BigShift(<<1>>, v.e)]

(* observed numbers as integers over one unit: their values are x / unit *)
Commensurate(vs) ==
    LET top == FoldLeft(LAMBDA acc, v : MaxI(acc, v.e), 0, vs)
    IN  [xs |-> [k \in DOMAIN vs |-> [neg |-> vs[k].neg /\ vs[k].m # <<>>,
                                      n |-> BigShift(vs[k].m, top - vs[k].e), d |-> <<1>>]],
         unit |-> [neg |-> FALSE, n |-> BigShift(<<1>>, top), d |-> <<1>>]]
Close(v, x) ==
    IsNum(v) /\
    LET l == BigMul(v.m, x.d)
        r == BigShift(x.n, v.e)
        diff == IF v.neg = x.neg \/ l = <<>> \/ r = <<>>
                THEN (IF BigCmp(l, r) >= 0 THEN BigSub(l, r) ELSE BigSub(r, l))
                ELSE BigAdd(l, r)
    IN  BigCmp(BigShift(diff, 7), BigAdd(BigShift(x.d, v.e), r)) <= 0
(* v is the non-negative square root of x, up to rounding *)
CloseRoot(v, x) ==
    IsNum(v) /\ ~v.neg /\
    Close([k |-> "num", neg |-> FALSE, m |-> BigMul(v.m, v.m), e |-> 2 * v.e], x)
=============================================================================
