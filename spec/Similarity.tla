----------------------------- MODULE Similarity -----------------------------
(***************************************************************************)
(* What the boundary-edit-distance metrics mean: weights, statistics,      *)
(* Boundary Similarity, Segmentation Similarity, boundary confusion matrix.*)
(* a, b are boundary strings; w = <<addition, substitution, transposition>>*)
(* names the weighting functions, which may also be a caller's own.        *)
(***************************************************************************)
EXTENDS BED, Num

DefaultWeights == <<"a", "s_scale", "t_scale">>

SumInt(seq) == FoldLeft(LAMBDA acc, x : acc + x, 0, seq)

(* additions: sequence of <<type, side>> *)
WeightA(name, adds) ==
    CASE name \in {"a"} -> QInt(Len(adds))
      [] name = "a2" -> QInt(2 * Len(adds))
      [] name = "a4" -> QInt(4 * Len(adds))
      [] name = "a_half" -> Q(Len(adds), 2)
      [] name = "a_side" -> QInt(SumInt([k \in DOMAIN adds |-> IF adds[k][2] = "a" THEN 3 ELSE 1]))
      [] name = "a_type" -> Q(SumInt([k \in DOMAIN adds |-> adds[k][1]]), 4)
      [] name = "a_zero" -> QZero
      [] name = "a_base" -> QInt(Len(adds) + 1)

(* substitutions: sequence of <<type in a, type in b>> *)
WeightS(name, subs, mx, mn) ==
    LET Dist == SumInt([k \in DOMAIN subs |-> AbsI(subs[k][1] - subs[k][2])])
    IN  CASE name = "s" -> QInt(Len(subs))
          [] name = "s_scale" -> Q(Dist, mx - mn + 1)
          [] name = "s4" -> QInt(4 * Len(subs))
          [] name = "s_half" -> Q(Len(subs), 2)
          [] name = "s_args" -> Q(Len(subs) * (mx * 5 + mn), 8)
          [] name = "s_dir" -> Q(SumInt([k \in DOMAIN subs |-> 2 * subs[k][1] + subs[k][2]]), 4)
          [] name = "s_zero" -> QZero
          [] name = "s_base" -> QInt(3 * Len(subs) + 1)

(* transpositions: sequence of <<start, end, type>>, 0-based *)
WeightT(name, trs, nt) ==
    CASE name = "t" -> QInt(Len(trs))
      [] name = "t_scale" -> Q(SumInt([k \in DOMAIN trs |-> AbsI(trs[k][1] - trs[k][2])]), nt)
      [] name = "t4" -> QInt(4 * Len(trs))
      [] name = "t_half" -> Q(Len(trs), 2)
      [] name = "t_args" -> Q(Len(trs) * nt, 8)
      [] name = "t_pos" -> Q(SumInt([k \in DOMAIN trs |-> 2 * trs[k][1] + trs[k][2] + trs[k][3]]), 4)
      [] name = "t_zero" -> QZero
      [] name = "t_base" -> QInt(Len(trs) + 2)

WeightedCount(w, ed, types, nt) ==
    QSum(<<WeightA(w[1], ed.add), WeightS(w[2], ed.sub, Max(types), Min(types)),
           WeightT(w[3], ed.tr, nt)>>)

----------------------------------------------------------------------------
MatchesOf(a, b) == Flatten([i \in DOMAIN a |-> a[i] \cap b[i]])
MissesOf(a, b) == Flatten([i \in DOMAIN a |-> (a[i] \ b[i]) \cup (b[i] \ a[i])])
BoundaryCount(a) == SumInt([i \in DOMAIN a |-> Cardinality(a[i])])
PotentialBoundaries(a, b) == Len(a) * Cardinality(TypesOf(a, b))

Stats(a, b, nt, w) ==
    LET ed == Edits(a, b, nt)
        types == TypesOf(a, b)
    IN  [ed |-> ed, types |-> types,
         edits |-> Len(ed.add) + Len(ed.sub) + Len(ed.tr),
         weighted |-> WeightedCount(w, ed, types, nt),
         match |-> MatchesOf(a, b), miss |-> MissesOf(a, b),
         all |-> BoundaryCount(a) + BoundaryCount(b),
         pbs |-> PotentialBoundaries(a, b)]

(* a similarity: exact numerator and denominator, and their quotient *)
Ratio(n, d) == [n |-> n, d |-> d, v |-> IF d.n = <<>> THEN QOne ELSE QDiv(n, d)]

SimB(a, b, nt, w) ==
    LET s == Stats(a, b, nt, w)
        d == QInt(s.edits + Len(s.match))
    IN  Ratio(QSub(d, s.weighted), d)

SimS(a, b, nt, w) ==
    LET s == Stats(a, b, nt, w)
        d == QInt(s.pbs)
    IN  Ratio(QSub(d, s.weighted), d)

(***************************************************************************)
(* Boundary confusion matrix: cells <<row, column>> -> value, where         *)
(* "no boundary" has a number of its own.  A boundary only the first        *)
(* segmentation has is counted at <<NoBoundary, type>>, one only the second *)
(* has at <<type, NoBoundary>> - the orientation the library's own tests    *)
(* fix, see DESIGN.                                                         *)
(***************************************************************************)
NoBoundary == -1000000
ConfusionCells(a, b, nt, w) ==
    LET s == Stats(a, b, nt, w)
        entries ==
            [k \in DOMAIN s.match |-> [c |-> <<s.match[k], s.match[k]>>, v |-> QOne]] \o
            [k \in DOMAIN s.ed.tr |-> [c |-> <<s.ed.tr[k][3], s.ed.tr[k][3]>>,
                                       v |-> WeightT(w[3], <<s.ed.tr[k]>>, nt)]] \o
            [k \in DOMAIN s.ed.sub |-> [c |-> s.ed.sub[k], v |-> QOne]] \o
            [k \in DOMAIN s.ed.add |->
                [c |-> IF s.ed.add[k][2] = "a" THEN <<NoBoundary, s.ed.add[k][1]>>
                                               ELSE <<s.ed.add[k][1], NoBoundary>>,
                 v |-> QOne]]
    IN  [c \in {entries[k].c : k \in DOMAIN entries} |->
            QSum([k \in DOMAIN entries |-> IF entries[k].c = c THEN entries[k].v ELSE QZero])]

(* the fewest additions and one-step transpositions that turn a into b,
   for one boundary type: dynamic programming over the positions *)
FewestEdits(a, b) ==
    LET Cost(f, i) ==
            IF a[i] = b[i] THEN f[i]
            ELSE LET alone == f[i] + 1
                 IN  IF i > 1 /\ a[i - 1] # b[i - 1] /\ a[i] = b[i - 1] /\ a[i - 1] = b[i]
                     THEN Min({alone, f[i - 1] + 1}) ELSE alone
        f == FoldLeftDomain(LAMBDA acc, i : Append(acc, Cost(acc, i)), <<0>>, a)
    IN  f[Len(a) + 1]
=============================================================================
