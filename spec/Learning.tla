------------------------------ MODULE Learning ------------------------------
(***************************************************************************)
(* Confusion matrices as values.  A matrix is a function from row labels   *)
(* to rows, a row a function from column labels to exact values.           *)
(***************************************************************************)
EXTENDS Num, FiniteSets, FiniteSetsExt

EmptyFn == [x \in {} |-> 0]
Put(f, x, v) == [y \in DOMAIN f \cup {x} |-> IF y = x THEN v ELSE f[y]]
Drop(f, x) == [y \in DOMAIN f \ {x} |-> f[y]]

Cell(m, p, a) == IF p \in DOMAIN m /\ a \in DOMAIN m[p] THEN m[p][a] ELSE QZero
Classes(m) == DOMAIN m \cup UNION {DOMAIN m[p] : p \in DOMAIN m}

QSumSet(S, Op(_)) == FoldSet(LAMBDA x, acc : QAdd(acc, Op(x)), QZero, S)

IsZero(x) == x.n = <<>>
QuotientOrZero(n, d) == IF IsZero(n) THEN QZero ELSE QDiv(n, d)

PrecisionParts(m, c) == [n |-> Cell(m, c, c), d |-> QSumSet(Classes(m), LAMBDA a : Cell(m, c, a))]
RecallParts(m, c) == [n |-> Cell(m, c, c), d |-> QSumSet(Classes(m), LAMBDA p : Cell(m, p, c))]
Quotient(parts) == QuotientOrZero(parts.n, parts.d)

FParts(m, c, beta) ==
    LET p == Quotient(PrecisionParts(m, c))
        r == Quotient(RecallParts(m, c))
        b2 == QMul(beta, beta)
    IN  [n |-> QMul(QAdd(QOne, b2), QMul(p, r)), d |-> QAdd(QMul(b2, p), r)]

(* measure of one class: "precision", "recall" or "fmeasure" *)
ClassParts(measure, m, c, beta) ==
    CASE measure = "precision" -> PrecisionParts(m, c)
      [] measure = "recall" -> RecallParts(m, c)
      [] measure = "fmeasure" -> FParts(m, c, beta)
ClassValue(measure, m, c, beta) == Quotient(ClassParts(measure, m, c, beta))

MicroAverage(measure, m, beta) ==
    Quotient([n |-> QSumSet(Classes(m), LAMBDA c : ClassParts(measure, m, c, beta).n),
              d |-> QSumSet(Classes(m), LAMBDA c : ClassParts(measure, m, c, beta).d)])
MacroAverage(measure, m, beta) ==
    IF Classes(m) = {} THEN QZero
    ELSE QDiv(QSumSet(Classes(m), LAMBDA c : ClassValue(measure, m, c, beta)),
              QInt(Cardinality(Classes(m))))
=============================================================================
