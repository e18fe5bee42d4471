------------------------------- MODULE MCNum -------------------------------
(***************************************************************************)
(* The exact arithmetic the oracle rests on, checked against TLC's own     *)
(* integers where both are defined: big naturals, signed rationals, the    *)
(* comparison of observed numbers, and the summary statistics (C19).       *)
(***************************************************************************)
EXTENDS Agreement, TLC
CONSTANTS Nums, Samples
VARIABLES x, y, chosen
SomeNums == {0, 1, -1, 2, 3, -7, 12, 999, 1000, -1000, 1001, 1999, 31622, -40000, 999999, 1000000, 123456789, -1000000000}
SomeSamples == {<<1>>, <<1, 1>>, <<1, 2, 4>>, <<-3, 0, 5, 5>>, <<0, 0, 0, 0, 7>>, <<9, 8, 7, 6, 5, 4>>}
Init == x \in Nums /\ y = 0 /\ chosen = FALSE
Next == ~chosen /\ y' \in Nums /\ chosen' = TRUE /\ UNCHANGED x
Spec == Init /\ [][Next]_<<x, y, chosen>>

Abs(n) == IF n < 0 THEN -n ELSE n
ValueOf(b) == FoldLeft(LAMBDA acc, k : acc + b[k] * (1000 ^ (k - 1)), 0, [k \in DOMAIN b |-> k])
Naturals ==
    /\ ValueOf(BigOf(Abs(x))) = Abs(x)
    /\ ValueOf(BigAdd(BigOf(Abs(x)), BigOf(Abs(y)))) = Abs(x) + Abs(y)
    /\ (Abs(x) >= Abs(y) => ValueOf(BigSub(BigOf(Abs(x)), BigOf(Abs(y)))) = Abs(x) - Abs(y))
    /\ (Abs(x) <= 40000 /\ Abs(y) <= 40000 =>
            ValueOf(BigMul(BigOf(Abs(x)), BigOf(Abs(y)))) = Abs(x) * Abs(y))
    /\ BigCmp(BigOf(Abs(x)), BigOf(Abs(y))) = (IF Abs(x) < Abs(y) THEN -1 ELSE IF Abs(x) > Abs(y) THEN 1 ELSE 0)
Rationals ==
    \A d \in {1, 2, 3, 7, 1000, 1001} :
        LET p == Q(x, d)
            q == Q(y, d + 1)
        IN  /\ QEq(QAdd(p, q), QSub(p, QNeg(q)))
            /\ QEq(QSub(QAdd(p, q), q), p)
            /\ (y # 0 => QEq(QMul(QDiv(p, q), q), p))
            /\ QLe(p, q) = (QLt(p, q) \/ QEq(p, q))
            /\ QLt(p, q) = ~QLe(q, p)
            /\ (Abs(x) <= 40000 /\ Abs(y) <= 40000 => QLe(p, q) = (x * (d + 1) <= y * d))
Obs(n) == [k |-> "num", neg |-> n < 0, m |-> BigOf(Abs(n)), e |-> 0]
Observations ==
    /\ Close(Obs(x), QInt(x))
    /\ QEq(Observed(Obs(x)), QInt(x))
    /\ (x # y => ~Close(Obs(x), QInt(y)))
    \* 10^-24 away is close to 0, 10^-18 away is not
    /\ Close([k |-> "num", neg |-> x < 0, m |-> <<1>>, e |-> 8], QZero)
    /\ ~Close([k |-> "num", neg |-> x < 0, m |-> <<1>>, e |-> 6], QZero)
    /\ (x >= 0 /\ x <= 40000 => CloseRoot(Obs(x), QInt(x * x)))
    /\ (x < 0 => ~CloseRoot(Obs(x), QMul(QInt(x), QInt(x))))
    /\ (Abs(x) # Abs(y) /\ x > 0 => ~CloseRoot(Obs(x), QMul(QInt(y), QInt(y))))
(* the variance is the mean squared deviation from the mean *)
Statistics ==
    \A s \in Samples :
        LET xs == [k \in DOMAIN s |-> QInt(s[k] * (x % 7) + (y % 11))]
            mu == Mean(xs, QInt(2))
            dev == [k \in DOMAIN xs |-> LET d == QSub(QDiv(xs[k], QInt(2)), mu) IN QMul(d, d)]
        IN  /\ QEq(QMul(mu, QInt(2 * Len(s))), QSum(xs))
            /\ QEq(Variance(xs, QInt(2)), QDiv(QSum(dev), QInt(Len(s))))
=============================================================================
