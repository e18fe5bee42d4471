------------------------------ MODULE Library ------------------------------
(***************************************************************************)
(* The library as a whole: which calls are valid, what each returns, and   *)
(* how calls on objects change them.  Every call is an event; functional   *)
(* calls leave the state as it is.                                         *)
(*                                                                         *)
(* A metric call has                                                       *)
(*   fn    B, S, pk, wd, bcm, stats                                        *)
(*   kind  "pair" with a, b : [f |-> format, v |-> value] and f, the format*)
(*         passed as an option; "ds" with d; "ds2" with d, d2 : datasets   *)
(*   o     options; "d" or -1 or <<>> stand for "left to the default"      *)
(*   shape how the arguments were passed                                   *)
(***************************************************************************)
EXTENDS Agreement, Matrices, Datasets

(* defaults of the options *)
Nt(o) == IF o.nt = -1 THEN 2 ELSE o.nt
Weights(o) == IF o.w = <<>> THEN DefaultWeights ELSE o.w
OneMinus(o) == o.om = "T"
ReturnParts(o) == o.rp = "T"
Rounding(o) == IF o.rnd = "d" THEN "round" ELSE o.rnd
Lamprier(o) == o.lam = "T"
Permuted(fn, o) == IF o.perm = "d" THEN fn \in {"pk", "wd"} ELSE o.perm = "T"

EditMetrics == {"B", "S", "bcm", "stats"}
WindowMetrics == {"pk", "wd"}
FormatsOf(fn) == IF fn \in EditMetrics THEN SegFormats ELSE SegFormats \ {"sets"}

WindowFor(ref, o) ==
    IF o.k # -1 THEN o.k ELSE WindowSize(MassesOfString(ref), Rounding(o))

(* the exact numerator, denominator and value of a scoring metric *)
Score(fn, a, b, o) ==
    CASE fn = "B" -> SimB(a, b, Nt(o), Weights(o))
      [] fn = "S" -> SimS(a, b, Nt(o), Weights(o))
      [] fn = "pk" -> Share(PkParts(a, b, WindowFor(b, o)))
      [] fn = "wd" -> Share(WdParts(a, b, WindowFor(b, o), Lamprier(o)))

----------------------------------------------------------------------------
(* what a result has to be *)

IsErr(r) == r.k = "err"
IsErrOf(r, c) == r.k = "err" /\ r.c = c
EqBag(r, tag, seq) == r.k = tag /\ BagOf(r.v) = BagOf(seq)
EqInt(r, n) == r.k = "num" /\ Close(r, QInt(n))

EditsOK(r, ed) ==
    /\ r.k = "edits"
    /\ EqBag(r.add, "adds", ed.add) /\ EqBag(r.sub, "subs", ed.sub) /\ EqBag(r.tr, "trs", ed.tr)

(* window counts are reported with their denominators unless no window fits *)
PartsOK(fn, a, b, o, r) ==
    LET s == Score(fn, a, b, o)
    IN  r.k = "tuple" /\
        CASE fn = "B" ->
                /\ Len(r.v) = 5
                /\ Close(r.v[1], s.n) /\ Close(r.v[2], s.d)
                /\ LET ed == Edits(a, b, Nt(o))
                   IN  EqBag(r.v[3], "adds", ed.add) /\ EqBag(r.v[4], "subs", ed.sub)
                       /\ EqBag(r.v[5], "trs", ed.tr)
          [] fn = "S" -> Len(r.v) = 2 /\ Close(r.v[1], s.n) /\ Close(r.v[2], s.d)
          [] OTHER -> Len(r.v) = 2 /\ Close(r.v[1], s.n)
                      /\ (s.d.n # <<>> => Close(r.v[2], s.d))

CmOK(cells, r) ==
    /\ r.k = "cm"
    /\ LET got == FnOf(r.v)
       IN  /\ Len(r.v) = Cardinality(DOMAIN got)
           /\ DOMAIN got = DOMAIN cells
           /\ \A c \in DOMAIN cells : Close(got[c], cells[c])
    /\ ToSet(r.cls) = UNION {{c[1], c[2]} : c \in DOMAIN cells}

StatsOK(a, b, o, r) ==
    LET s == Stats(a, b, Nt(o), Weights(o))
    IN  /\ r.k = "stats"
        /\ EqBag(r.add, "adds", s.ed.add) /\ EqBag(r.sub, "subs", s.ed.sub)
        /\ EqBag(r.tr, "trs", s.ed.tr)
        /\ EqBag(r.match, "types", s.match) /\ EqBag(r.miss, "types", s.miss)
        /\ r.types.k = "types" /\ ToSet(r.types.v) = s.types
        /\ EqInt(r.all, s.all) /\ EqInt(r.pbs, s.pbs)
        /\ Close(r.count, s.weighted)

ResultOK(fn, a, b, o, r) ==
    CASE fn = "bcm" -> CmOK(ConfusionCells(a, b, Nt(o), Weights(o)), r)
      [] fn = "stats" -> StatsOK(a, b, o, r)
      [] OTHER ->
            IF ReturnParts(o) THEN PartsOK(fn, a, b, o, r)
            ELSE LET v == Score(fn, a, b, o).v
                 IN  r.k = "num" /\ Close(r, IF OneMinus(o) THEN QSub(QOne, v) ELSE v)

(* the results of a call on datasets: one entry per compared pair *)
EntriesOK(r, pairs, permutedOrCross, OK(_, _)) ==
    /\ r.k = "map"
    /\ LET got == FnOf(r.v)
           Name(t) == EntryName(t[1], t[2], t[3])
       IN  /\ Len(r.v) = Cardinality(DOMAIN got)
           /\ IF permutedOrCross
              THEN /\ DOMAIN got = {Name(t) : t \in pairs}
                   /\ \A t \in pairs : OK(t, got[Name(t)])
              ELSE \* one order per unordered pair, whichever
                   /\ Len(r.v) = Cardinality(pairs)
                   /\ \A t \in pairs :
                        IF Name(t) \in DOMAIN got THEN OK(t, got[Name(t)])
                        ELSE Name(Flip(t)) \in DOMAIN got /\ OK(Flip(t), got[Name(Flip(t))])

ComparedPairs(e) ==
    IF e.kind = "ds2" THEN CrossPairs(e.d, e.d2)
    ELSE IF Permuted(e.fn, e.o) THEN Ordered(e.d) ELSE OncePairs(e.d)
AllOrders(e) == e.kind = "ds2" \/ Permuted(e.fn, e.o)
PairCodings(e, t) ==
    <<Coding(e.d, t[1], t[2]), Coding(IF e.kind = "ds2" THEN e.d2 ELSE e.d, t[1], t[3])>>

MetricOK(e) ==
    IF e.kind = "pair" THEN ResultOK(e.fn, StringOf(e.a), StringOf(e.b), e.o, e.res)
    ELSE EntriesOK(e.res, ComparedPairs(e), AllOrders(e),
                   LAMBDA t, r : LET c == PairCodings(e, t) IN ResultOK(e.fn, c[1], c[2], e.o, r))

----------------------------------------------------------------------------
(* validity of calls (e.shape describes the arguments that were passed) *)

(* positional arguments and keywords, each "seg" or "ds": accepted are two
   positional or the two keywords of one kind, or one dataset either way *)
ShapeOK(s) ==
    \/ /\ Len(s.pos) = 2 /\ s.hyp = "" /\ s.ref = "" /\ s.dataset = "" /\ s.pos[1] = s.pos[2]
    \/ /\ Len(s.pos) = 1 /\ s.pos[1] = "ds" /\ s.hyp = "" /\ s.ref = "" /\ s.dataset = ""
    \/ /\ Len(s.pos) = 0 /\ s.hyp # "" /\ s.ref = s.hyp /\ s.dataset = ""
    \/ /\ Len(s.pos) = 0 /\ s.hyp = "" /\ s.ref = "" /\ s.dataset = "ds"

(* how a call is taken: positional arguments first, and all that is passed
   has to be used *)
Dispatch(s) ==
    IF Len(s.pos) > 2 THEN "rejected"
    ELSE IF Len(s.pos) > 0 /\ (s.hyp # "" \/ s.ref # "" \/ s.dataset # "") THEN "rejected"
    ELSE IF Len(s.pos) = 2 THEN (IF s.pos[1] # s.pos[2] THEN "rejected" ELSE IF s.pos[1] = "ds" THEN "ds2" ELSE "pair")
    ELSE IF Len(s.pos) = 1 THEN (IF s.pos[1] = "ds" THEN "ds" ELSE "rejected")
    ELSE IF s.dataset # "" THEN (IF s.hyp = "" /\ s.ref = "" /\ s.dataset = "ds" THEN "ds" ELSE "rejected")
    ELSE IF s.hyp = "" \/ s.hyp # s.ref THEN "rejected"
    ELSE IF s.hyp = "ds" THEN "ds2" ELSE "pair"
(* enough was passed, but there is a keyword too many: Python rejects that
   before the library can *)
SurplusKeyword(s) ==
    LET given == {<<"h", s.hyp>>, <<"r", s.ref>>, <<"d", s.dataset>>} \ {<<"h", "">>, <<"r", "">>, <<"d", "">>}
    IN  \/ Len(s.pos) \in {1, 2} /\ given # {}
        \/ Len(s.pos) = 0 /\ s.dataset # "" /\ (s.hyp # "" \/ s.ref # "")

ComparableAs(fn, f, a, b) ==
    /\ f \in FormatsOf(fn)
    /\ Len(StringOf(a)) = Len(StringOf(b))

ValidCall(e) ==
    /\ ShapeOK(e.shape)
    /\ CASE e.kind = "pair" -> ComparableAs(e.fn, e.f, e.a, e.b)
         [] e.kind = "ds" -> \A t \in OncePairs(e.d) :
                                /\ e.d.f \in FormatsOf(e.fn)
                                /\ LET c == PairCodings(e, t) IN Len(c[1]) = Len(c[2])
         [] e.kind = "ds2" -> /\ e.d.f = e.d2.f
                              /\ \A t \in CrossPairs(e.d, e.d2) :
                                    /\ e.d.f \in FormatsOf(e.fn)
                                    /\ LET c == PairCodings(e, t) IN Len(c[1]) = Len(c[2])
         [] e.kind = "none" -> FALSE

(* a call passed in any shape, right or wrong *)
DispatchOK(e) ==
    LET d == Dispatch(e.shape)
    IN  IF d = "rejected"
        THEN IF SurplusKeyword(e.shape) THEN IsErr(e.res) ELSE IsErrOf(e.res, "metric")
        ELSE e.kind = d /\ (IF ValidCall(e) THEN MetricOK(e) ELSE IsErrOf(e.res, "metric"))

----------------------------------------------------------------------------
(* agreement: e.fn in {"aa", "pi", "kappa", "bias"}, e.cmp in {"B", "S"} *)

AgreementParts(e) ==
    LET cmp == Comparisons(e.d, e.cmp, Nt(e.o), Weights(e.o))
        coders == AllCoders(e.d)
        aa == PooledOf(cmp)
    IN  CASE e.fn = "pi" -> <<aa, PiExpected(cmp, coders)>>
          [] e.fn = "kappa" -> <<aa, KappaExpected(cmp, coders)>>
          [] e.fn = "bias" -> <<PiExpected(cmp, coders), KappaExpected(cmp, coders)>>

AgreementValue(e) ==
    IF e.fn = "aa" THEN PooledOf(Comparisons(e.d, e.cmp, Nt(e.o), Weights(e.o)))
    ELSE LET p == AgreementParts(e)
         IN  IF e.fn = "bias" THEN QSub(p[1], p[2]) ELSE Corrected(p[1], p[2])

(* a bag of tuples of exact numbers, in any order, observed as xs *)
EqBagQ(xs, seq) ==
    /\ Len(xs) = Len(seq)
    /\ \A j \in DOMAIN seq :
          Cardinality({i \in DOMAIN xs : \A k \in DOMAIN seq[j] : Close(xs[i][k], seq[j][k])})
          = Cardinality({i \in DOMAIN seq : \A k \in DOMAIN seq[j] : QEq(seq[i][k], seq[j][k])})

ActualPartsOK(e) ==
    LET cmp == Comparisons(e.d, e.cmp, Nt(e.o), Weights(e.o))
        coders == AllCoders(e.d)
        r == e.res
    IN  /\ r.k = "aaparts"
        /\ EqBagQ(r.rows, [k \in DOMAIN cmp |-> <<cmp[k].num, cmp[k].den, QInt(cmp[k].pbs)>>])
        /\ LET got == FnOf(r.placed)
           IN  /\ Len(r.placed) = Cardinality(DOMAIN got)
               /\ DOMAIN got = {c \in coders : PlacedBy(cmp, c) # <<>>}
               /\ \A c \in DOMAIN got :
                     LET want == PlacedBy(cmp, c)
                     IN  EqBagQ(got[c], [k \in DOMAIN want |-> <<QInt(want[k][1]), QInt(want[k][2])>>])

AgreementOK(e) ==
    IF ReturnParts(e.o)
    THEN IF e.fn = "aa" THEN ActualPartsOK(e)
         ELSE LET p == AgreementParts(e)
              IN  /\ e.res.k = "tuple" /\ Len(e.res.v) = 2
                  /\ Close(e.res.v[1], p[1]) /\ Close(e.res.v[2], p[2])
    ELSE LET v == AgreementValue(e)
         IN  e.res.k = "num" /\ Close(e.res, IF OneMinus(e.o) THEN QSub(QOne, v) ELSE v)

ValidAgreement(e) ==
    /\ \A t \in OncePairs(e.d) :
          Len(Coding(e.d, t[1], t[2])) = Len(Coding(e.d, t[1], t[3]))
    /\ e.fn \in {"kappa", "pi"} =>
          Cardinality({Cardinality(CodersOf(e.d, i)) : i \in ItemNames(e.d)}) = 1
    /\ e.fn = "kappa" => \A i \in ItemNames(e.d) : Cardinality(CodersOf(e.d, i)) > 1

----------------------------------------------------------------------------
(* window sizes: of a segmentation (kind "pair", e.a) or a dataset (e.d) *)
SegMasses(seg) == MassesOfString(StringOf(seg))
DatasetMasses(d) ==
    FoldLeft(LAMBDA acc, i :
        acc \o FoldLeft(LAMBDA acc2, c : acc2 \o SegMasses([f |-> d.f, v |-> c[2]]), <<>>, i[2]),
        <<>>, d.items)
WindowSizeOK(e) ==
    EqInt(e.res, WindowSize(IF e.kind = "pair" THEN SegMasses(e.a) ELSE DatasetMasses(e.d),
                            Rounding(e.o)))

(* summaries of logged numbers *)
SummaryOK(e) ==
    LET c == Commensurate(e.vals)
        var == Variance(c.xs, c.unit)
    IN  /\ e.res.k = "tuple" /\ Len(e.res.v) = 5
        /\ Close(e.res.v[1], Mean(c.xs, c.unit))
        /\ CloseRoot(e.res.v[2], var)
        /\ Close(e.res.v[3], var)
        /\ CloseRoot(e.res.v[4], QDiv(var, QInt(Len(c.xs))))
        /\ EqInt(e.res.v[5], Len(c.xs))

(* the weighting functions on their own: e.fn, edits e.v, and the numbers
   e.n (n_t, or <<largest, smallest>> type; smallest left out when -1) *)
EditWeightOK(e) ==
    e.res.k = "num" /\
    Close(e.res, CASE e.fn = "a" -> WeightA("a", e.v)
                   [] e.fn \in {"s", "s_scale"} -> WeightS(e.fn, e.v, e.n[1], IF e.n[2] = -1 THEN 1 ELSE e.n[2])
                   [] e.fn \in {"t", "t_scale"} -> WeightT(e.fn, e.v, e.n[1]))

(* a metric whose results are given on to a summary (e.to "summary") or, from
   boundary confusion matrices, to precision, recall or F-measure: e has the
   fields of the metric call and those of the measure *)
MatrixOfCells(cells) ==
    [p \in {c[1] : c \in DOMAIN cells} |-> [a \in {c[2] : c \in {x \in DOMAIN cells : x[1] = p}} |-> cells[<<p, a>>]]]
MeasuredPair(e, t) ==
    LET c == IF e.kind = "pair" THEN <<StringOf(e.a), StringOf(e.b)>> ELSE PairCodings(e, t)
        m == MatrixOfCells(ConfusionCells(c[1], c[2], Nt(e.o), Weights(e.o)))
        beta == QOf(e.beta)
    IN  IF e.cls # <<>> THEN ClassValue(e.to, m, e.cls[1], beta)
        ELSE IF e.avg = "macro" THEN MacroAverage(e.to, m, beta) ELSE MicroAverage(e.to, m, beta)
StatisticsOK(r, xs) ==
    LET var == Variance(xs, QOne)
    IN  /\ r.k = "tuple" /\ Len(r.v) = 5
        /\ Close(r.v[1], Mean(xs, QOne)) /\ CloseRoot(r.v[2], var) /\ Close(r.v[3], var)
        /\ CloseRoot(r.v[4], QDiv(var, QInt(Len(xs)))) /\ EqInt(r.v[5], Len(xs))
PipeOK(e) ==
    LET ps == SetToSeq(ComparedPairs(e))
        Plain(t) == LET c == PairCodings(e, t)
                        v == Score(e.fn, c[1], c[2], e.o).v
                    IN  IF OneMinus(e.o) THEN QSub(QOne, v) ELSE v
    IN  IF e.to = "summary"
        THEN StatisticsOK(e.res, [k \in DOMAIN ps |-> IF e.fn = "bcm" THEN MeasuredPair([e EXCEPT !.to = e.via], ps[k]) ELSE Plain(ps[k])])
        ELSE IF e.kind = "pair" THEN e.res.k = "num" /\ Close(e.res, MeasuredPair(e, <<>>))
        ELSE EntriesOK(e.res, ComparedPairs(e), AllOrders(e),
                       LAMBDA t, r : r.k = "num" /\ Close(r, MeasuredPair(e, t)))

(* precision, recall, F-measure: e.measure, e.cls (sequence of at most one
   class), e.avg "d" / "micro" / "macro" / "unknown", e.beta <<n, d>> *)
MeasureValue(e, m) ==
    LET beta == QOf(e.beta)
    IN  IF e.cls # <<>> THEN ClassValue(e.measure, m, e.cls[1], beta)
        ELSE IF e.avg = "macro" THEN MacroAverage(e.measure, m, beta)
        ELSE MicroAverage(e.measure, m, beta)
CellsFn(rows) == LET f == FnOf(rows) IN [p \in DOMAIN f |-> LET g == FnOf(f[p]) IN [a \in DOMAIN g |-> QOf(g[a])]]
MeasureOK(e, ms) ==     \* ms: sequence of <<label, matrix value>>; one matrix has label ""
    IF e.avg = "unknown" /\ e.cls = <<>> THEN IsErrOf(e.res, "metric")
    ELSE IF e.many
         THEN /\ e.res.k = "map"
              /\ LET got == FnOf(e.res.v)
                     want == FnOf(ms)
                 IN  /\ Len(e.res.v) = Cardinality(DOMAIN got)
                     /\ DOMAIN got = DOMAIN want
                     /\ \A l \in DOMAIN want : Close(got[l], MeasureValue(e, want[l]))
         ELSE e.res.k = "num" /\ Close(e.res, MeasureValue(e, ms[1][2]))
=============================================================================
