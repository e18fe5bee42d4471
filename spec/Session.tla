------------------------------ MODULE Session ------------------------------
(***************************************************************************)
(* A session with the library is a sequence of events (calls with their    *)
(* observed results).  State:                                              *)
(*   mem   results remembered under a key, to relate calls to each other   *)
(*   cm    confusion-matrix objects       (Matrices)                       *)
(*   ds    dataset objects and files      (Datasets)                       *)
(* After(st, e) is the state after event e - the transition function - and *)
(* Holds(c, st, e) says whether clause c of the contract holds for e.      *)
(***************************************************************************)
EXTENDS Library

Fresh == [mem |-> EmptyFn, cm |-> CmInit, ds |-> DsInit]

----------------------------------------------------------------------------
(* datasets *)

AddClash(s, e) == Clash(s.ds[e.d].items, s.ds[e.other].items)

FileFromLog(f) ==
    IF f.k = "json"
    THEN [k |-> "json", type |-> f.type,
          items |-> [j \in DOMAIN f.items |-> Codings(f.items[j])], props |-> FnOf(f.props)]
    ELSE [k |-> f.k]

TargetPath(e) == IF e.dir THEN e.path \o "/output.json" ELSE e.path

ObsDataset(e, d) == e.obs.ds[CHOOSE k \in DOMAIN e.obs.ds : e.obs.ds[k][1] = d][2]
HasObs(e, d) == \E k \in DOMAIN e.obs.ds : e.obs.ds[k][1] = d

(* after a rejected +=, follow what the dataset was left with *)
AdoptPartial(s, e) ==
    IF ~HasObs(e, e.d) THEN s
    ELSE LET A == s.ds[e.d].items
             B == s.ds[e.other].items
             o == ObsDataset(e, e.d)
             R == Codings(o.items)
             Known(i, c) == (i \in DOMAIN A /\ c \in DOMAIN A[i]) \/ (i \in DOMAIN B /\ c \in DOMAIN B[i])
         IN  [s EXCEPT !.ds[e.d].items =
                 [i \in (DOMAIN R \cap (DOMAIN A \cup DOMAIN B)) \cup DOMAIN A |->
                    LET a == IF i \in DOMAIN A THEN A[i] ELSE EmptyFn
                        cs == DOMAIN a \cup (IF i \in DOMAIN R THEN {c \in DOMAIN R[i] : Known(i, c)} ELSE {})
                    IN  [c \in cs |-> IF c \in DOMAIN a THEN a[c] ELSE B[i][c]]],
                              !.ds[e.d].coders = @ \cup (ToSet(o.coders) \cap CodersIn(B))]

DsEnabled(s, e) ==
    CASE e.act \in {"new", "raw"} -> TRUE
      [] e.act = "jin" -> e.path \in DOMAIN s.fs
      [] e.act \in {"iadd", "add"} -> e.d \in DOMAIN s.ds /\ e.other \in DOMAIN s.ds
      [] e.act \in {"delc", "poke"} -> e.d \in DOMAIN s.ds /\ e.i \in DOMAIN s.ds[e.d].items
                                         /\ e.c \in DOMAIN s.ds[e.d].items[e.i]
                                         /\ (e.act = "poke" => ~Shared(s, s.ds[e.d].items[e.i][e.c]))
      [] e.act = "deli" -> e.d \in DOMAIN s.ds /\ e.i \in DOMAIN s.ds[e.d].items
      [] e.act = "delprop" -> e.d \in DOMAIN s.ds /\ e.key2 \in DOMAIN s.ds[e.d].props
      [] e.act = "use" -> e.d \in DOMAIN s.ds /\ (e.d2 = "" \/ e.d2 \in DOMAIN s.ds)
      [] OTHER -> e.d \in DOMAIN s.ds

DsApply(s, e) ==
    CASE e.act = "new" ->
            LET c == Codings(e.items)
            IN  StoreFresh(s, e.d, c, [coders |-> CodersIn(c), props |-> FnOf(e.props),
                                       types |-> IF e.types = <<>> THEN {1} ELSE ToSet(e.types),
                                       fmt |-> e.fmt])
      [] e.act = "copy" -> StoreFresh(s, e.to, Content(s, e.d), Meta(s, e.d))
      [] e.act = "iadd" -> IF AddClash(s, e) THEN AdoptPartial(s, e) ELSE MergeInto(s, e.d, e.other)
      [] e.act = "add" ->
            IF AddClash(s, e) THEN s
            ELSE LET c == StoreFresh(s, e.to, Content(s, e.d), Meta(s, e.d))
                 IN  [c EXCEPT !.ds[e.to].items = Merge(@, s.ds[e.other].items),
                               !.ds[e.to].coders = @ \cup CodersIn(s.ds[e.other].items)]
      [] e.act = "set" ->
            LET old == s.ds[e.d].items
                row == IF e.i \in DOMAIN old THEN old[e.i] ELSE EmptyFn
            IN  [s EXCEPT !.vals = Append(@, e.v),
                          !.ds[e.d].items = Put(old, e.i, Put(row, e.c, Len(s.vals) + 1))]
      [] e.act = "delc" -> [s EXCEPT !.ds[e.d].items[e.i] = Drop(@, e.c)]
      [] e.act = "deli" -> [s EXCEPT !.ds[e.d].items = Drop(@, e.i)]
      [] e.act = "touch" -> IF e.i \in DOMAIN s.ds[e.d].items THEN s
                            ELSE [s EXCEPT !.ds[e.d].items = Put(@, e.i, EmptyFn)]
      [] e.act = "poke" -> [s EXCEPT !.vals[s.ds[e.d].items[e.i][e.c]] = e.v]
      [] e.act = "prop" -> [s EXCEPT !.ds[e.d].props = Put(@, e.key2, e.val)]
      [] e.act = "delprop" -> [s EXCEPT !.ds[e.d].props = Drop(@, e.key2)]
      [] e.act = "type" -> [s EXCEPT !.ds[e.d].types = @ \cup {e.t}]
      [] e.act = "coder" -> [s EXCEPT !.ds[e.d].coders = @ \cup {e.c}]
      [] e.act = "fmt" -> [s EXCEPT !.ds[e.d].fmt = e.fmt]
      [] e.act = "drop" -> [s EXCEPT !.ds = Drop(@, e.d)]
      [] e.act = "use" -> s
      [] e.act = "raw" -> [s EXCEPT !.fs = Put(@, e.path, FileFromLog(e.file))]
      [] e.act = "jout" -> [s EXCEPT !.fs = Put(@, TargetPath(e), JsonFile(s, e.d))]
      [] e.act = "jin" -> IF Loadable(s.fs[e.path]) THEN LoadJson(s, e.to, s.fs[e.path]) ELSE s

(* a dataset of the state as the argument of a call *)
AsArgument(s, d) ==
    LET c == Content(s, d)
        is == SetToSeq(DOMAIN c)
    IN  [f |-> s.ds[d].fmt,
         items |-> [k \in DOMAIN is |->
            LET row == c[is[k]]
                cs == SetToSeq(DOMAIN row)
            IN  <<is[k], [j \in DOMAIN cs |-> <<cs[j], row[cs[j]]>>]>>]]

(* e.what: "metric", "agree" or "wsize"; e.d2 = "" for calls on one dataset *)
Used(s, e) ==
    [fn |-> e.fn, kind |-> IF e.d2 = "" THEN "ds" ELSE "ds2", d |-> AsArgument(s, e.d),
     d2 |-> AsArgument(s, IF e.d2 = "" THEN e.d ELSE e.d2), o |-> e.o, shape |-> e.shape,
     cmp |-> e.cmp, res |-> e.res]

FullyCoded(d) ==
    /\ d.items # <<>>
    /\ \A i \in ItemNames(d) : CodersOf(d, i) = AllCoders(d)
    /\ Cardinality(AllCoders(d)) > 1
    /\ \A t \in OncePairs(d) : Coding(d, t[1], t[2]) # <<>>

(* what is asked of the result; calls outside of what the functions are for
   (nothing coded, incomplete codings, certain agreement) are left open *)
UseOK(s, e) ==
    LET u == Used(s, e)
    IN  CASE e.what = "metric" ->
                IF u.d.items = <<>> \/ u.d2.items = <<>> THEN TRUE
                ELSE IF ValidCall(u) THEN MetricOK(u) ELSE IsErrOf(u.res, "metric")
          [] e.what = "agree" ->
                IF u.d.items = <<>> THEN TRUE
                ELSE IF ~ValidAgreement(u) THEN IsErr(u.res)
                ELSE IF ~FullyCoded(u.d) THEN TRUE
                ELSE IF e.fn \in {"pi", "kappa"} /\ ~ReturnParts(u.o) /\ QEq(AgreementParts(u)[2], QOne) THEN TRUE
                ELSE AgreementOK(u)
          [] e.what = "wsize" ->
                IF u.d.f \notin {"mass", "position"} \/ DatasetMasses(u.d) = <<>> THEN TRUE ELSE WindowSizeOK(u)

DsRejected(s, e) ==
    \/ e.act \in {"iadd", "add"} /\ AddClash(s, e)
    \/ e.act = "jin" /\ ~Loadable(s.fs[e.path])

DatasetMatches(s, d, o) ==
    /\ LET it == FnOf(o.items) IN Len(o.items) = Cardinality(DOMAIN it)
    /\ Codings(o.items) = Content(s, d)
    /\ ToSet(o.coders) = s.ds[d].coders
    /\ FnOf(o.props) = s.ds[d].props
    /\ ToSet(o.types) = s.ds[d].types
    /\ o.fmt = s.ds[d].fmt

FileMatches(want, o) == FileFromLog(o) = want

(* the observed datasets and files are those of the state *)
DsStateOK(s, e) ==
    /\ e.obs.k = "state"
    /\ {e.obs.ds[k][1] : k \in DOMAIN e.obs.ds} = DOMAIN s.ds
    /\ \A k \in DOMAIN e.obs.ds : DatasetMatches(s, e.obs.ds[k][1], e.obs.ds[k][2])
    /\ {e.obs.fs[k][1] : k \in DOMAIN e.obs.fs} = DOMAIN s.fs
    /\ \A k \in DOMAIN e.obs.fs : FileMatches(s.fs[e.obs.fs[k][1]], e.obs.fs[k][2])

----------------------------------------------------------------------------
(* confusion matrices *)
CmStateOK(s, e) ==
    /\ e.obs.k = "state"
    /\ {e.obs.ms[k][1] : k \in DOMAIN e.obs.ms} = DOMAIN s.mats
    /\ \A k \in DOMAIN e.obs.ms :
          LET want == MatrixValue(s, e.obs.ms[k][1])
              got == FnOf(e.obs.ms[k][2])
          IN  /\ Len(e.obs.ms[k][2]) = Cardinality(DOMAIN got)
              /\ DOMAIN got = DOMAIN want
              /\ \A p \in DOMAIN want :
                    LET row == FnOf(got[p])
                    IN  /\ DOMAIN row = DOMAIN want[p] /\ Len(got[p]) = Cardinality(DOMAIN row)
                        /\ \A a \in DOMAIN row : Close(row[a], want[p][a])

CmResultOK(s, e) ==      \* s: state after the event
    CASE CmReads(e) -> e.res.k = "num" /\ Close(e.res, CmRead(s, e))
      [] e.act = "setrow" -> IsErr(e.res)
      [] e.act \in {"classes", "taint"} ->
            e.res.k = "labels" /\ ToSet(e.res.v) = Classes(MatrixValue(s, e.mat))
      [] e.act = "measure" -> MeasureOK(e, <<<<"", MatrixValue(s, e.mat)>>>>)
      [] OTHER -> ~IsErr(e.res)

----------------------------------------------------------------------------
After(st, e) ==
    LET s == CASE e.op = "cm" -> [st EXCEPT !.cm = CmApply(@, e)]
               [] e.op = "ds" -> [st EXCEPT !.ds = DsApply(@, e)]
               [] OTHER -> st
    IN  IF e.key = "" THEN s ELSE [s EXCEPT !.mem = Put(@, e.key, e.res)]

Enabled(st, e) ==
    CASE e.op = "cm" -> CmEnabled(st.cm, e)
      [] e.op = "ds" -> DsEnabled(st.ds, e)
      [] OTHER -> TRUE

----------------------------------------------------------------------------
(* relations between results *)

BagTags == {"adds", "subs", "trs", "types"}
RECURSIVE Same(_, _)
Same(x, y) ==
    /\ x.k = y.k
    /\ CASE x.k = "num" -> Close(x, Observed(y))
         [] x.k \in BagTags -> BagOf(x.v) = BagOf(y.v)
         [] x.k = "tuple" -> Len(x.v) = Len(y.v) /\ \A j \in DOMAIN x.v : Same(x.v[j], y.v[j])
         [] x.k = "map" -> /\ Len(x.v) = Len(y.v)
                           /\ LET f == FnOf(x.v)
                                  g == FnOf(y.v)
                              IN  DOMAIN f = DOMAIN g /\ \A l \in DOMAIN f : Same(f[l], g[l])
         [] x.k = "edits" -> Same(x.add, y.add) /\ Same(x.sub, y.sub) /\ Same(x.tr, y.tr)
         [] x.k = "stats" -> /\ Same(x.add, y.add) /\ Same(x.sub, y.sub) /\ Same(x.tr, y.tr)
                             /\ Same(x.match, y.match) /\ Same(x.miss, y.miss)
                             /\ Same(x.types, y.types) /\ Same(x.all, y.all)
                             /\ Same(x.pbs, y.pbs) /\ Same(x.count, y.count)
         [] x.k = "cm" -> /\ Len(x.v) = Len(y.v)
                          /\ LET f == FnOf(x.v)
                                 g == FnOf(y.v)
                             IN  DOMAIN f = DOMAIN g /\ \A l \in DOMAIN f : Same(f[l], g[l])
                          /\ ToSet(x.cls) = ToSet(y.cls)
         [] x.k = "aaparts" ->
               /\ EqBagQ(x.rows, [j \in DOMAIN y.rows |-> [h \in DOMAIN y.rows[j] |-> Observed(y.rows[j][h])]])
               /\ LET f == FnOf(x.placed)
                      g == FnOf(y.placed)
                  IN  /\ DOMAIN f = DOMAIN g
                      /\ \A l \in DOMAIN f :
                            EqBagQ(f[l], [j \in DOMAIN g[l] |-> [h \in DOMAIN g[l][j] |-> Observed(g[l][j][h])]])
         [] x.k \in {"seq", "sets", "labels", "file"} -> x.v = y.v
         [] x.k = "err" -> x.c = y.c
         [] x.k = "ds" -> /\ Codings(x.items) = Codings(y.items) /\ ToSet(x.coders) = ToSet(y.coders)
                          /\ FnOf(x.props) = FnOf(y.props) /\ ToSet(x.types) = ToSet(y.types)
                          /\ x.fmt = y.fmt
         [] OTHER -> FALSE

(* relation R between numbers, lifted to the entries of dataset results *)
Lift(R(_, _), x, y) ==
    IF x.k = "map" /\ y.k = "map"
    THEN LET f == FnOf(x.v)
             g == FnOf(y.v)
         IN  DOMAIN f = DOMAIN g /\ \A l \in DOMAIN f : R(f[l], g[l])
    ELSE R(x, y)

IsOneMinus(x, y) == IsNum(x) /\ IsNum(y) /\ Close(x, QSub(QOne, Observed(y)))

(* parts x belong to the plain value y: B, S are 1 and Pk, WindowDiff are 0
   when nothing is compared *)
PartsOf(x, y, fn) ==
    /\ IsNum(y)
    /\ IF fn = "aa"
       THEN /\ x.k = "aaparts"
            /\ LET d == QSum([j \in DOMAIN x.rows |-> Observed(x.rows[j][2])])
                   n == QSum([j \in DOMAIN x.rows |-> Observed(x.rows[j][1])])
               IN  Close(y, IF d.n = <<>> THEN QOne ELSE QDiv(n, d))
       ELSE /\ x.k = "tuple" /\ Len(x.v) >= 2 /\ IsNum(x.v[1]) /\ IsNum(x.v[2])
            /\ LET p == Observed(x.v[1])
                   q == Observed(x.v[2])
               IN  CASE fn = "bias" -> Close(y, QSub(p, q))
                     [] fn \in {"pi", "kappa"} -> Close(y, Corrected(p, q))
                     [] fn \in {"B", "S"} -> Close(y, IF q.n = <<>> THEN QOne ELSE QDiv(p, q))
                     [] fn \in {"pk", "wd"} ->
                           Close(y, IF q.n = <<>> \/ q.neg THEN QZero ELSE QDiv(p, q))

(* the mirror image of edits *)
Mirror(x, y) ==
    /\ x.k = "edits" /\ y.k = "edits"
    /\ x.add.k = "adds" /\ y.add.k = "adds" /\ x.sub.k = "subs" /\ y.sub.k = "subs"
    /\ x.tr.k = "trs" /\ y.tr.k = "trs"
    /\ BagOf(x.add.v) = BagOf([j \in DOMAIN y.add.v |-> <<y.add.v[j][1], IF y.add.v[j][2] = "a" THEN "b" ELSE "a">>])
    /\ BagOf(x.sub.v) = BagOf([j \in DOMAIN y.sub.v |-> <<y.sub.v[j][2], y.sub.v[j][1]>>])
    /\ BagOf(x.tr.v) = BagOf(y.tr.v)

InUnit(x) == IsNum(x) /\ LET v == Observed(x) IN QLe(QZero, v) /\ QLe(v, QOne)
AtLeast(x, y) == IsNum(x) /\ IsNum(y) /\ QLe(Observed(y), Observed(x))

----------------------------------------------------------------------------
(* boundary edit distance, event e with strings e.a, e.b (sequences of
   sequences of types), e.nt and result e.res *)
StrA(e) == [i \in DOMAIN e.a |-> ToSet(e.a[i])]
StrB(e) == [i \in DOMAIN e.b |-> ToSet(e.b[i])]
NtOf(e) == IF e.nt = -1 THEN 2 ELSE e.nt

WellFormedEdits(r) == r.k = "edits" /\ r.add.k = "adds" /\ r.sub.k = "subs" /\ r.tr.k = "trs"
NoRepeats(s) == Len(s) = Cardinality(ToSet(s))

(* transposition <<start, end, type>> takes up a boundary at each end, which
   lie on opposite sides *)
NearMiss(a, b, t) ==
    /\ t[1] >= 0 /\ t[1] < t[2] /\ t[2] < Len(a)
    /\ LET p == Pending(a, b)
       IN  t[3] \in Movable(p, t[1] + 1, t[2] + 1)
Ends(t) == {<<t[1], t[3]>>, <<t[2], t[3]>>}
Disjoint(trs) == \A j, h \in DOMAIN trs : j # h => Ends(trs[j]) \cap Ends(trs[h]) = {}

(* what is pending once the observed transpositions are taken out *)
Left(a, b, trs) ==
    LET p == Pending(a, b)
        Gone(i) == {trs[j][3] : j \in {h \in DOMAIN trs : trs[h][1] + 1 = i \/ trs[h][2] + 1 = i}}
    IN  [i \in DOMAIN a |-> [x |-> p[i].x \ Gone(i), y |-> p[i].y \ Gone(i)]]

CountAll(bag, x) == Cardinality({j \in DOMAIN bag : bag[j] = x})
Accounted(e) ==
    LET a == StrA(e)
        b == StrB(e)
        r == e.res
    IN  /\ WellFormedEdits(r)
        /\ \A j \in DOMAIN r.tr.v : NearMiss(a, b, r.tr.v[j])
        /\ Disjoint(r.tr.v)
        /\ LET left == Left(a, b, r.tr.v)
               \* every boundary left over, with its side
               pend == Flatten([i \in DOMAIN a |-> {<<d, "a">> : d \in left[i].x}
                                                    \cup {<<d, "b">> : d \in left[i].y}])
               used == r.add.v \o [j \in DOMAIN r.sub.v |-> <<r.sub.v[j][1], "a">>]
                               \o [j \in DOMAIN r.sub.v |-> <<r.sub.v[j][2], "b">>]
           IN  BagOf(pend) = BagOf(used)
Nearest(e) ==
    /\ WellFormedEdits(e.res) /\ NoRepeats(e.res.tr.v)
    /\ ToSet(e.res.tr.v) = {<<t[1] - 1, t[2] - 1, t[3]>> : t \in Scan(StrA(e), StrB(e), NtOf(e)).t}
Paired(e) ==
    /\ WellFormedEdits(e.res)
    /\ LET left == Left(StrA(e), StrB(e), e.res.tr.v)
       IN  /\ BagOf(e.res.sub.v) = BagOf(Flatten([i \in DOMAIN left |-> SubsOf(left[i])]))
           /\ BagOf(e.res.add.v) = BagOf(Flatten([i \in DOMAIN left |-> AddsOf(left[i])]))
NumberOfEdits(r) == Len(r.add.v) + Len(r.sub.v) + Len(r.tr.v)
FewEnough(e) ==
    /\ WellFormedEdits(e.res)
    /\ LET misses == Len(MissesOf(StrA(e), StrB(e)))
       IN  /\ NumberOfEdits(e.res) <= misses
           /\ (NumberOfEdits(e.res) = 0) = (misses = 0)
Fewest(e) == WellFormedEdits(e.res) /\ NumberOfEdits(e.res) = FewestEdits(StrA(e), StrB(e))

----------------------------------------------------------------------------
(* conversions: e.conv names the conversion, e.v is its argument *)
ConversionOK(e) ==
    CASE e.conv = "m2p" -> e.res.k = "seq" /\ e.res.v = PositionsOfMasses(e.v)
      [] e.conv = "p2m" -> e.res.k = "seq" /\ e.res.v = MassesOfPositions(e.v)
      [] e.conv = "n2m" -> e.res.k = "seq" /\ e.res.v = MassesOfNltk(e.v)
      [] e.conv = "m2p2m" -> e.res.k = "seq" /\ e.res.v = e.v
      [] e.conv = "m2s" -> /\ e.res.k = "sets"
                           /\ [j \in DOMAIN e.res.v |-> ToSet(e.res.v[j])] = BoundaryString(e.v)

(* delimited files: e.item, e.rows, e.positions *)
DatasetIs(r, content) ==
    /\ r.k = "ds"
    /\ Len(r.items) = Cardinality(DOMAIN FnOf(r.items))
    /\ Codings(r.items) = content /\ ToSet(r.coders) = CodersIn(content)
TableOK(e) == DatasetIs(e.res, TableContent(e.item, e.rows, e.positions))

(* folder trees: e.files is a sequence of [path : folders, stem, ext, file],
   e.type the chosen type *)
AnyCase(a, b, c) == {"." \o x \o y \o z : x \in a, y \in b, z \in c}
AnyCase4(a, b, c, d) == {x \o y : x \in AnyCase(a, b, c), y \in d}
Extensions(t) ==
    IF t = "tsv" THEN AnyCase({"t", "T"}, {"s", "S"}, {"v", "V"}) \cup AnyCase({"c", "C"}, {"s", "S"}, {"v", "V"})
    ELSE AnyCase({"j", "J"}, {"s", "S"}, {"n", "N"}) \cup AnyCase4({"j", "J"}, {"s", "S"}, {"o", "O"}, {"n", "N"})
JoinPath(path, item) == FoldLeft(LAMBDA acc, x : x \o "," \o acc, item, Reverse(path))
FileContent(f) ==
    IF f.file.k = "table" THEN TableContent(f.stem, f.file.rows, FALSE)
    ELSE Codings(f.file.items[1])
Prefixed(prefix, f) ==
    LET c == FileContent(f)
        path == prefix \o f.path
    IN  [name \in {JoinPath(path, i) : i \in DOMAIN c} |->
            c[CHOOSE i \in DOMAIN c : JoinPath(path, i) = name]]
ReadableFile(f) == f.file.k = "table" \/ Loadable(f.file)
FoldersOK(e) ==
    LET chosen == SelectSeq(e.files, LAMBDA f : f.ext \in Extensions(e.type))
        RECURSIVE Go(_, _)
        Go(acc, j) ==
            IF j > Len(chosen) THEN [ok |-> TRUE, c |-> acc]
            ELSE IF ~ReadableFile(chosen[j]) THEN [ok |-> FALSE, c |-> acc]
            ELSE LET c == Prefixed(IF "prefix" \in DOMAIN e THEN e.prefix ELSE <<>>, chosen[j])
                 IN  IF Clash(acc, c) THEN [ok |-> FALSE, c |-> acc] ELSE Go(Merge(acc, c), j + 1)
        (* a given dataset is added to *)
        r == Go(IF "into" \in DOMAIN e THEN Codings(e.into.items) ELSE EmptyFn, 1)
    IN  IF r.ok THEN DatasetIs(e.res, r.c) ELSE IsErrOf(e.res, "data")

----------------------------------------------------------------------------
Recalled(st, e) == st.mem[e.ref]

EntriesOf(st, e) ==        \* e is a dataset call; single results are in mem
    EntriesOK(e.res, ComparedPairs(e), AllOrders(e),
              LAMBDA t, r : LET n == e.ref \o EntryName(t[1], t[2], t[3])
                            IN  n \in DOMAIN st.mem /\ Same(r, st.mem[n]))

Holds(c, st, e) ==
    CASE c = "conversion" -> ConversionOK(e)
      [] c = "account" -> Accounted(e)
      [] c = "nearest" -> Nearest(e)
      [] c = "paired" -> Paired(e)
      [] c = "edits" -> EditsOK(e.res, Edits(StrA(e), StrB(e), NtOf(e)))
      [] c = "fewenough" -> FewEnough(e)
      [] c = "fewest" -> Fewest(e)
      [] c = "mirror" -> Mirror(e.res, Recalled(st, e))
      [] c = "value" -> MetricOK(e)
      [] c = "verdict" -> IF ValidCall(e) THEN MetricOK(e) ELSE IsErrOf(e.res, "metric")
      [] c = "pipe" -> PipeOK(e)
      [] c = "weight" -> EditWeightOK(e)
      [] c = "dispatch" -> DispatchOK(e)
      [] c = "agreement" -> AgreementOK(e)
      [] c = "agreeverdict" -> IF ValidAgreement(e) THEN AgreementOK(e) ELSE IsErr(e.res)
      [] c = "resolved" -> e.res.k = "seq" /\ e.res.v = <<1>>
      [] c = "windowsize" -> WindowSizeOK(e)
      [] c = "summary" -> SummaryOK(e)
      [] c = "measure" -> MeasureOK(e, [j \in DOMAIN e.ms |-> <<e.ms[j][1], CellsFn(e.ms[j][2])>>])
      [] c = "same" -> Same(e.res, Recalled(st, e))
      [] c = "notanerror" -> ~IsErr(e.res)
      [] c = "oneminus" -> Lift(IsOneMinus, e.res, Recalled(st, e))
      [] c = "parts" -> Lift(LAMBDA x, y : PartsOf(x, y, e.fn), e.res, Recalled(st, e))
      [] c = "unit" -> InUnit(e.res)
      [] c = "one" -> IsNum(e.res) /\ Close(e.res, QOne)
      [] c = "zero" -> IsNum(e.res) /\ Close(e.res, QZero)
      [] c = "atmostone" -> IsNum(e.res) /\ QLe(Observed(e.res), QOne)
      [] c = "atleast" -> AtLeast(e.res, Recalled(st, e))
      [] c = "entries" -> EntriesOf(st, e)
      [] c = "metricerror" -> IsErrOf(e.res, "metric")
      [] c = "dataerror" -> IsErrOf(e.res, "data")
      [] c = "error" -> IsErr(e.res)
      [] c = "intact" -> e.intact
      [] c = "matrix" -> CmResultOK(After(st, e).cm, e)
      [] c = "matrices" -> CmStateOK(After(st, e).cm, e)
      [] c = "dataset" -> IF e.act = "use" THEN UseOK(st.ds, e) ELSE IF DsRejected(st.ds, e) THEN IsErrOf(e.res, "data") ELSE ~IsErr(e.res)
      [] c = "datasets" -> DsStateOK(After(st, e).ds, e)
      [] c = "table" -> TableOK(e)
      [] c = "folders" -> FoldersOK(e)

Broken(st, e) ==
    IF ~Enabled(st, e) THEN {"enabled"}
    ELSE {c \in ToSet(e.chk) : ~Holds(c, st, e)}
=============================================================================
