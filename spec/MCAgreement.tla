----------------------------- MODULE MCAgreement -----------------------------
(***************************************************************************)
(* Agreement over every small dataset (C18, C20 - C22).  A dataset is built*)
(* coding by coding; in every complete one (each item coded by every coder)*)
(* the coefficients are checked against what is said of them.              *)
(***************************************************************************)
EXTENDS Agreement, TLC
CONSTANTS Coders, Items, UnitCounts, NTypes, NTs
VARIABLES items, nt, fn
vars == <<items, nt, fn>>

CoderSeq == SetToSeq(Coders)
ItemSeq == SetToSeq(Items)
UnitsOf(k) == SetToSeq(UnitCounts)[((k - 1) % Cardinality(UnitCounts)) + 1]
Strings(n) == [1..(n - 1) -> SUBSET (1..NTypes)]

Init == items = <<>> /\ nt \in NTs /\ fn \in {"B", "S"}
Full(k) == Len(items[k][2]) = Len(CoderSeq)
AddItem == /\ Len(items) < Len(ItemSeq)
           /\ \A k \in DOMAIN items : Full(k)
           /\ items' = Append(items, <<ItemSeq[Len(items) + 1], <<>>>>)
           /\ UNCHANGED <<nt, fn>>
AddCoding == /\ items # <<>> /\ ~Full(Len(items))
             /\ LET k == Len(items)
                    c == CoderSeq[Len(items[k][2]) + 1]
                IN  \E s \in Strings(UnitsOf(k)) :
                        items' = [items EXCEPT ![k][2] = Append(@, <<c, s>>)]
             /\ UNCHANGED <<nt, fn>>
Next == AddItem \/ AddCoding
Spec == Init /\ [][Next]_vars

----------------------------------------------------------------------------
Done == items # <<>> /\ \A k \in DOMAIN items : Full(k)
\* strings of sets are their own format here
Ds(it) == [f |-> "sets", items |-> [k \in DOMAIN it |-> <<it[k][1],
              [j \in DOMAIN it[k][2] |-> <<it[k][2][j][1], [p \in DOMAIN it[k][2][j][2] |-> SetToSeq(it[k][2][j][2][p])]>>]>>]]
DS == Ds(items)
Cmp == Comparisons(DS, fn, nt, DefaultWeights)
Mirrored == Ds([k \in DOMAIN items |-> <<items[k][1], Reverse(items[k][2])>>])
Rotated == LET n == Len(CoderSeq)
               To(c) == CoderSeq[((CHOOSE j \in DOMAIN CoderSeq : CoderSeq[j] = c) % n) + 1]
           IN  Ds([k \in DOMAIN items |-> <<items[k][1], [j \in DOMAIN items[k][2] |-> <<To(items[k][2][j][1]), items[k][2][j][2]>>]>>])
Reversed == Ds(Reverse(items))

Identical == \A k \in DOMAIN items : \A j \in DOMAIN items[k][2] : items[k][2][j][2] = items[k][2][1][2]

AA(ds) == PooledOf(Comparisons(ds, fn, nt, DefaultWeights))
PairsExact ==
    Done => LET n == Len(CoderSeq)
            IN  /\ Cardinality(OncePairs(DS)) * 2 = Len(items) * n * (n - 1)
                /\ Ordered(DS) = OncePairs(DS) \cup {Flip(t) : t \in OncePairs(DS)}
                /\ OncePairs(DS) \cap {Flip(t) : t \in OncePairs(DS)} = {}
                /\ CrossPairs(DS, DS) = SelfPairs(DS)
Pooled == Done => /\ QLe(QZero, AA(DS)) /\ QLe(AA(DS), QOne)
                  /\ QEq(AA(DS), QOne) = Identical
Symmetric == Done => /\ QEq(AA(DS), AA(Mirrored)) /\ QEq(AA(DS), AA(Rotated)) /\ QEq(AA(DS), AA(Reversed))
                     /\ LET c1 == Cmp
                            c2 == Comparisons(Rotated, fn, nt, DefaultWeights)
                            c3 == Comparisons(Reversed, fn, nt, DefaultWeights)
                        IN  \A c \in {c2, c3} :
                              /\ QEq(PiExpected(c1, Coders), PiExpected(c, Coders))
                              /\ QEq(KappaExpected(c1, Coders), KappaExpected(c, Coders))
ChanceCorrected ==
    Done => LET c == Cmp
            IN  \A ae \in {PiExpected(c, Coders), KappaExpected(c, Coders)} :
                  /\ QLe(QZero, ae) /\ QLe(ae, QOne)
                  /\ (~QEq(ae, QOne) => /\ QLe(Corrected(AA(DS), ae), AA(DS))
                                        /\ (Identical => QEq(Corrected(AA(DS), ae), QOne)))
EvenBias ==      \* the same proportion everywhere: no bias
    Done => LET c == Cmp
                props == {Q(c[k].bm, c[k].pbs) : k \in DOMAIN c} \cup {Q(c[k].bn, c[k].pbs) : k \in DOMAIN c}
            IN  (\A p, q \in props : QEq(p, q)) => QEq(PiExpected(c, Coders), KappaExpected(c, Coders))
SomeBias ==      \* two coders, one text: bias is the squared half difference
    (Done /\ Len(items) = 1 /\ Cardinality(Coders) = 2) =>
        LET c == Cmp
            d == QDiv(QSub(Q(c[1].bm, c[1].pbs), Q(c[1].bn, c[1].pbs)), QInt(2))
        IN  QEq(QSub(PiExpected(c, Coders), KappaExpected(c, Coders)), QMul(d, d))
=============================================================================
