---------------------------- MODULE MCPipelines ----------------------------
(***************************************************************************)
(* Measures of boundary confusion matrices, on every pair of boundary      *)
(* strings up to length L over NTypes types: what C30 says of exchanging   *)
(* the two, of identical segmentations, and of what the counts are.        *)
(***************************************************************************)
EXTENDS Library, TLC
CONSTANTS L, NTypes, NTs
VARIABLES a, b, nt, chosen
Strings(n) == [1..n -> SUBSET (1..NTypes)]
Init == /\ \E n \in 1..L : a \in Strings(n)
        /\ b = a /\ nt \in NTs /\ chosen = FALSE
Next == ~chosen /\ b' \in Strings(Len(a)) /\ chosen' = TRUE /\ UNCHANGED <<a, nt>>
Spec == Init /\ [][Next]_<<a, b, nt, chosen>>

W == DefaultWeights
M(x, y) == MatrixOfCells(ConfusionCells(x, y, nt, W))
Betas == {QOne, Q(1, 2), QInt(2)}
Measures == {"precision", "recall", "fmeasure"}
St == Stats(a, b, nt, W)
Types == UNION ({a[i] : i \in DOMAIN a} \cup {b[i] : i \in DOMAIN b})
InUnit(q) == QLe(QZero, q) /\ QLe(q, QOne)
Val(what, m, c) == ClassValue(what, m, c, QOne)

Exchange ==
    /\ \A c \in Types :
        /\ QEq(Val("precision", M(a, b), c), Val("recall", M(b, a), c))
        /\ QEq(Val("fmeasure", M(a, b), c), Val("fmeasure", M(b, a), c))
    /\ QEq(MacroAverage("precision", M(a, b), QOne), MacroAverage("recall", M(b, a), QOne))
    /\ QEq(MicroAverage("precision", M(a, b), QOne), MicroAverage("recall", M(b, a), QOne))
    /\ QEq(MicroAverage("fmeasure", M(a, b), QOne), MicroAverage("fmeasure", M(b, a), QOne))
Identical ==
    a = b /\ Types # {} =>
        \A w \in Measures, be \in Betas :
            /\ \A c \in Types : QEq(ClassValue(w, M(a, a), c, be), QOne)
            /\ QEq(MicroAverage(w, M(a, a), be), QOne) /\ QEq(MacroAverage(w, M(a, a), be), QOne)
Ranges ==
    \A w \in Measures :
        /\ \A c \in Types : InUnit(Val(w, M(a, b), c))
        /\ InUnit(MicroAverage(w, M(a, b), QOne)) /\ InUnit(MacroAverage(w, M(a, b), QOne))
(* nothing placed by one of the two: nothing is right *)
Nothing ==
    /\ ((\A i \in DOMAIN a : a[i] \cap b[i] = {}) /\ Len(St.ed.tr) = 0) =>
            \A c \in Types : \A w \in Measures : QEq(Val(w, M(a, b), c), QZero)
    /\ Types = {} => \A w \in Measures : QEq(MacroAverage(w, M(a, b), QOne), QZero)
       /\ QEq(MicroAverage("precision", M(a, b), QOne), QZero)
(* with everything right, precision of a type is the share of its decisions
   that both made *)
Shares ==
    \A c \in Types :
        LET right == QAdd(QInt(Cardinality({i \in DOMAIN a : c \in a[i] /\ c \in b[i]})),
                          WeightT("t_scale", SelectSeq(St.ed.tr, LAMBDA t : t[3] = c), nt))
            onlyB == Cardinality({k \in DOMAIN St.ed.add : St.ed.add[k] = <<c, "b">>})
            onlyA == Cardinality({k \in DOMAIN St.ed.add : St.ed.add[k] = <<c, "a">>})
            subA == Cardinality({k \in DOMAIN St.ed.sub : St.ed.sub[k][1] = c})
            subB == Cardinality({k \in DOMAIN St.ed.sub : St.ed.sub[k][2] = c})
        IN  /\ QEq(QMul(Val("precision", M(a, b), c), QAdd(right, QInt(onlyB + subA))), right)
            /\ QEq(QMul(Val("recall", M(a, b), c), QAdd(right, QInt(onlyA + subB))), right)
=============================================================================
