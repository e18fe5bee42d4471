----------------------------- MODULE MCLearning -----------------------------
(***************************************************************************)
(* Precision, recall and F-measure on every confusion matrix over Labels   *)
(* with cells from Values (C17): ranges, duality of precision and recall,  *)
(* position of F between the two, and the averages.                        *)
(***************************************************************************)
EXTENDS Learning, TLC
CONSTANTS Labels, Values
VARIABLES m, todo
Cells == Labels \X Labels
(* a matrix is filled cell by cell; a cell may be left out altogether *)
Init == m = EmptyFn /\ todo = SetToSeq(Cells)
Fill(v) == LET c == Head(todo)
               row == IF c[1] \in DOMAIN m THEN m[c[1]] ELSE EmptyFn
           IN  m' = Put(m, c[1], Put(row, c[2], QInt(v)))
Next == /\ todo # <<>>
        /\ todo' = Tail(todo)
        /\ \/ UNCHANGED m
           \/ \E v \in Values : Fill(v)
Spec == Init /\ [][Next]_<<m, todo>>

Transposed == [a \in UNION {DOMAIN m[p] : p \in DOMAIN m} |->
                  [p \in {q \in DOMAIN m : a \in DOMAIN m[q]} |-> m[p][a]]]
InUnit(q) == QLe(QZero, q) /\ QLe(q, QOne)
Betas == {QOne, Q(1, 2), QInt(2)}
Ranges ==
    /\ \A c \in Classes(m), ms \in {"precision", "recall", "fmeasure"}, b \in Betas :
          InUnit(ClassValue(ms, m, c, b))
    /\ \A ms \in {"precision", "recall", "fmeasure"} :
          InUnit(MacroAverage(ms, m, QOne)) /\ InUnit(MicroAverage(ms, m, QOne))
Dual ==
    \A c \in Classes(m) :
        /\ QEq(ClassValue("precision", m, c, QOne), ClassValue("recall", Transposed, c, QOne))
        /\ QEq(ClassValue("fmeasure", m, c, QOne), ClassValue("fmeasure", Transposed, c, QOne))
Between ==
    \A c \in Classes(m), b \in Betas :
        LET p == ClassValue("precision", m, c, b)
            r == ClassValue("recall", m, c, b)
            f == ClassValue("fmeasure", m, c, b)
        IN  /\ (QLe(p, f) /\ QLe(f, r)) \/ (QLe(r, f) /\ QLe(f, p))
            /\ (IsZero(p) => IsZero(f)) /\ (QEq(p, r) => QEq(f, p))
(* pooled over all classes precision and recall are the same: the diagonal
   over everything *)
Pooled ==
    QEq(MicroAverage("precision", m, QOne), MicroAverage("recall", m, QOne))
OneClass ==
    Cardinality(Classes(m)) = 1 =>
        \A ms \in {"precision", "recall", "fmeasure"}, b \in Betas, c \in Classes(m) :
            /\ QEq(MacroAverage(ms, m, b), ClassValue(ms, m, c, b))
            /\ QEq(MicroAverage(ms, m, b), ClassValue(ms, m, c, b))
=============================================================================
