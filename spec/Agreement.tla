----------------------------- MODULE Agreement -----------------------------
(***************************************************************************)
(* Datasets of codings, pairwise comparison over them, summaries, and the  *)
(* agreement coefficients.  A dataset value is [f |-> format, items |->    *)
(* <<<<item, <<<<coder, segmentation>>, ...>>>>, ...>>]: sequences, because*)
(* a dictionary has an order, though no result may depend on it.           *)
(***************************************************************************)
EXTENDS Similarity, Windows

ItemNames(ds) == {ds.items[k][1] : k \in DOMAIN ds.items}
CodingsOf(ds, item) == ds.items[CHOOSE k \in DOMAIN ds.items : ds.items[k][1] = item][2]
CodersOf(ds, item) == LET c == CodingsOf(ds, item) IN {c[k][1] : k \in DOMAIN c}
AllCoders(ds) == UNION {CodersOf(ds, i) : i \in ItemNames(ds)}
Coding(ds, item, coder) ==
    LET c == CodingsOf(ds, item)
    IN  StringOf([f |-> ds.f, v |-> c[CHOOSE k \in DOMAIN c : c[k][1] = coder][2]])

EntryName(item, m, n) == item \o "," \o m \o "," \o n

(***************************************************************************)
(* The comparisons a metric makes over one dataset: for every unordered    *)
(* pair of coders of an item one of the two ordered pairs (which one is    *)
(* left open), or both when permuted.  Over two datasets: all pairs.       *)
(***************************************************************************)
SelfPairs(ds) ==
    UNION {{<<i, m, n>> : m \in CodersOf(ds, i), n \in CodersOf(ds, i)} : i \in ItemNames(ds)}
Ordered(ds) == {t \in SelfPairs(ds) : t[2] # t[3]}
CrossPairs(d1, d2) ==
    UNION {{<<i, m, n>> : m \in CodersOf(d1, i), n \in CodersOf(d2, i)} :
              i \in ItemNames(d1) \cap ItemNames(d2)}
Flip(t) == <<t[1], t[3], t[2]>>
(* one of each unordered pair, arbitrary: by position in the dictionary *)
OncePairs(ds) ==
    LET Of(i) == LET c == CodingsOf(ds, i)
                     earlier == {q \in (DOMAIN c) \X (DOMAIN c) : q[1] < q[2]}
                 IN  {<<i, c[p[1]][1], c[p[2]][1]>> : p \in earlier}
    IN  UNION {Of(i) : i \in ItemNames(ds)}

----------------------------------------------------------------------------
(* Population statistics of exact values xs[k] / unit.  The variance is    *)
(* (n * sum of squares - square of the sum) / n^2, which is the mean       *)
(* squared deviation (MCNum checks this).                                  *)
Mean(xs, unit) == QDiv(QSum(xs), QMul(QInt(Len(xs)), unit))
Variance(xs, unit) ==
    LET n == QInt(Len(xs))
        s == QSum(xs)
        all == QMul(n, unit)
    IN  QDiv(QSub(QMul(n, QSum([k \in DOMAIN xs |-> QMul(xs[k], xs[k])])), QMul(s, s)), QMul(all, all))

----------------------------------------------------------------------------
Similarity(fn, a, b, nt, w) == IF fn = "S" THEN SimS(a, b, nt, w) ELSE SimB(a, b, nt, w)

(* all comparisons of a fully coded dataset, in some order *)
Comparisons(ds, fn, nt, w) ==
    LET ps == SetToSeq(OncePairs(ds))
    IN  [k \in DOMAIN ps |->
            LET a == Coding(ds, ps[k][1], ps[k][2])
                b == Coding(ds, ps[k][1], ps[k][3])
                s == Similarity(fn, a, b, nt, w)
            IN  [item |-> ps[k][1], m |-> ps[k][2], n |-> ps[k][3],
                 num |-> s.n, den |-> s.d, pbs |-> PotentialBoundaries(a, b),
                 bm |-> BoundaryCount(a), bn |-> BoundaryCount(b)]]

PooledOf(cmp) ==
    LET d == QSum([k \in DOMAIN cmp |-> cmp[k].den])
    IN  IF d.n = <<>> THEN QOne ELSE QDiv(QSum([k \in DOMAIN cmp |-> cmp[k].num]), d)

(* boundaries placed and potential boundaries of one coder, per comparison *)
PlacedBy(cmp, coder) ==
    FoldLeft(LAMBDA acc, x :
        acc \o (IF x.m = coder THEN <<<<x.bm, x.pbs>>>> ELSE <<>>)
            \o (IF x.n = coder THEN <<<<x.bn, x.pbs>>>> ELSE <<>>), <<>>, cmp)

(* sums of fractions: those of equal denominator first *)
SumFractions(fs) ==
    LET dens == SetToSeq({fs[k][2] : k \in DOMAIN fs})
    IN  QSum([j \in DOMAIN dens |->
            Q(SumInt([k \in DOMAIN fs |-> IF fs[k][2] = dens[j] THEN fs[k][1] ELSE 0]), dens[j])])

PiExpected(cmp, coders) ==
    LET all == FoldLeft(LAMBDA acc, c : acc \o PlacedBy(cmp, c), <<>>, SetToSeq(coders))
        p == QDiv(SumFractions(all), QInt(Len(all)))
    IN  QMul(p, p)

Proportion(cmp, coder) ==
    LET pl == PlacedBy(cmp, coder)
    IN  Q(SumInt([k \in DOMAIN pl |-> pl[k][1]]), SumInt([k \in DOMAIN pl |-> pl[k][2]]))

KappaExpected(cmp, coders) ==
    LET seq == SetToSeq(coders)
        prop == [k \in DOMAIN seq |-> Proportion(cmp, seq[k])]
        pairs == SetToSeq({q \in (DOMAIN seq) \X (DOMAIN seq) : q[1] < q[2]})
    IN  QDiv(QSum([k \in DOMAIN pairs |-> QMul(prop[pairs[k][1]], prop[pairs[k][2]])]),
             QInt(Len(pairs)))

Corrected(aa, ae) == QDiv(QSub(aa, ae), QSub(QOne, ae))
=============================================================================
