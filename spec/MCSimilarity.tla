---------------------------- MODULE MCSimilarity ----------------------------
(***************************************************************************)
(* Laws of the similarity metrics, checked of the specification on every   *)
(* pair of boundary strings up to length L over NTypes types: what C07-C11 *)
(* say of ranges, symmetry, consistency of the statistics, scaling of the  *)
(* weights and content of the boundary confusion matrix.                   *)
(***************************************************************************)
EXTENDS Similarity, TLC
CONSTANTS L, NTypes, NTs
VARIABLES a, b, nt, chosen
Strings(n) == [1..n -> SUBSET (1..NTypes)]
Init == /\ \E n \in 1..L : a \in Strings(n)
        /\ b = a /\ nt \in NTs /\ chosen = FALSE
Next == ~chosen /\ b' \in Strings(Len(a)) /\ chosen' = TRUE /\ UNCHANGED <<a, nt>>
Spec == Init /\ [][Next]_<<a, b, nt, chosen>>

W == DefaultWeights
St == Stats(a, b, nt, W)
InUnit(q) == QLe(QZero, q) /\ QLe(q, QOne)

BLaws ==
    LET v == SimB(a, b, nt, W)
    IN  /\ InUnit(v.v)
        /\ QEq(v.v, SimB(b, a, nt, W).v)
        /\ QEq(v.v, QOne) = (a = b)
        /\ QEq(v.v, QZero) = (a # b /\ St.match = <<>> /\ St.ed.sub = <<>> /\ St.ed.tr = <<>>)
SLaws ==
    LET v == SimS(a, b, nt, W)
    IN  /\ InUnit(v.v)
        /\ QEq(v.v, SimS(b, a, nt, W).v)
        /\ QEq(v.v, QOne) = (a = b)
        /\ (NTypes = 1 => v.d = QInt(Len(a)))
(* boundaries count less against all the places where there could be one *)
Order == QLe(SimB(a, b, nt, W).v, SimS(a, b, nt, W).v)
StatisticsLaws ==
    /\ 2 * Len(St.match) + Len(St.miss) = St.all
    /\ Len(St.miss) = Len(St.ed.add) + 2 * (Len(St.ed.sub) + Len(St.ed.tr))
    /\ St.all <= 2 * St.pbs
(* near misses and near types cost less than misses, more the further apart *)
WeightLaws ==
    /\ \A k \in DOMAIN St.ed.tr :
          LET one == WeightT("t_scale", <<St.ed.tr[k]>>, nt) IN QLt(QZero, one) /\ QLt(one, QOne)
    /\ \A k \in DOMAIN St.ed.sub :
          LET one == WeightS("s_scale", <<St.ed.sub[k]>>, Max(St.types), Min(St.types))
          IN  QLt(QZero, one) /\ QLt(one, QOne)
    /\ QLe(St.weighted, QInt(St.edits))
    /\ QLe(QInt(Len(St.ed.add)), St.weighted)
CellsLaws ==
    LET cells == ConfusionCells(a, b, nt, W)
        back == ConfusionCells(b, a, nt, W)
    IN  /\ DOMAIN back = {<<c[2], c[1]>> : c \in DOMAIN cells}
        /\ \A c \in DOMAIN cells : QEq(cells[c], back[<<c[2], c[1]>>])
        /\ QEq(FoldSet(LAMBDA c, acc : QAdd(acc, cells[c]), QZero, DOMAIN cells),
               QAdd(QInt(Len(St.match) + Len(St.ed.sub) + Len(St.ed.add)),
                    WeightT("t_scale", St.ed.tr, nt)))
        /\ <<NoBoundary, NoBoundary>> \notin DOMAIN cells
=============================================================================
