----------------------------- MODULE MCDatasets -----------------------------
(***************************************************************************)
(* Dataset objects and JSON files under every sequence of operations (C23, *)
(* C24).  The object heap of Datasets is run next to a ghost without any   *)
(* sharing: `val' maps dataset names to their codings by value.  Sequences *)
(* of D operations are printed as scripts for the harness to play on the   *)
(* library.  A rejected += is followed by dropping the dataset, as what it *)
(* leaves behind is not specified.                                         *)
(***************************************************************************)
EXTENDS Session, TLC, Json
CONSTANTS Names, Items, Coders, Acts, D, Emit, UseFns
VARIABLES s, val, hist, end
vars == <<s, val, hist, end>>

SegA == <<2, 1>>
SegB == <<1, 1, 1>>
Segs == {SegA, SegB}
Paths == {"f.json", "g.json"}
Starts == {<<>>} \cup {<<<<i, <<<<c, SegA>>>>>>>> : i \in Items, c \in Coders}
            \cup (IF Cardinality(Items) > 1
                  THEN {<<<<i, <<<<c, SegA>>>>>>, <<j, <<<<c, SegB>>>>>>>> : i \in Items, j \in Items \ {CHOOSE x \in Items : TRUE}, c \in Coders}
                  ELSE {})
NoRepeat(rows) == \A p, q \in DOMAIN rows : p # q => rows[p][1] # rows[q][1]
New(d, rows) == [act |-> "new", d |-> d, items |-> rows, props |-> <<<<"p", "1">>>>,
                 types |-> <<>>, fmt |-> "mass", c |-> "list"]
Raw(p, f) == [act |-> "raw", path |-> p, file |-> f]
RawFiles == {[k |-> "bad", text |-> "{"],
             [k |-> "json", type |-> <<"other">>, items |-> <<<<>>>>, props |-> <<>>],
             [k |-> "json", type |-> <<>>, items |-> <<<<>>>>, props |-> <<>>],
             [k |-> "json", type |-> <<"linear">>, items |-> <<>>, props |-> <<<<"p", "2">>>>],
             [k |-> "json", type |-> <<"linear">>, items |-> <<<<<<"i", <<<<"c", SegB>>>>>>>>>>, props |-> <<<<"q", "[2]">>>>]}

Actions ==
    LET Of(act) == act \in Acts
    IN  UNION {
        IF Of("new") THEN {New(d, rows) : d \in Names, rows \in {x \in Starts : NoRepeat(x)}} ELSE {},
        IF Of("copy") THEN {[act |-> "copy", d |-> x[1], to |-> x[2]] : x \in {y \in Names \X Names : y[1] # y[2]}} ELSE {},
        IF Of("iadd") THEN {[act |-> "iadd", d |-> d, other |-> o] : d \in Names, o \in Names} ELSE {},
        IF Of("add") THEN {[act |-> "add", d |-> x[1], other |-> x[2], to |-> x[3]] :
                              x \in {y \in Names \X Names \X Names : y[3] # y[1] /\ y[3] # y[2]}} ELSE {},
        IF Of("set") THEN {[act |-> "set", d |-> d, i |-> i, c |-> c, v |-> SegB] : d \in Names, i \in Items, c \in Coders} ELSE {},
        IF Of("delc") THEN {[act |-> "delc", d |-> d, i |-> i, c |-> c] : d \in Names, i \in Items, c \in Coders} ELSE {},
        IF Of("poke") THEN {[act |-> "poke", d |-> d, i |-> i, c |-> c, v |-> <<3>>] : d \in Names, i \in Items, c \in Coders} ELSE {},
        IF Of("deli") THEN {[act |-> "deli", d |-> d, i |-> i] : d \in Names, i \in Items} ELSE {},
        IF Of("touch") THEN {[act |-> "touch", d |-> d, i |-> i] : d \in Names, i \in Items} ELSE {},
        IF Of("prop") THEN {[act |-> "prop", d |-> d, key2 |-> k, val |-> "[7]"] : d \in Names, k \in {"p", "items"}} ELSE {},
        IF Of("delprop") THEN {[act |-> "delprop", d |-> d, key2 |-> "p"] : d \in Names} ELSE {},
        IF Of("type") THEN {[act |-> "type", d |-> d, t |-> 4] : d \in Names} ELSE {},
        IF Of("coder") THEN {[act |-> "coder", d |-> d, c |-> "extra"] : d \in Names} ELSE {},
        IF Of("fmt") THEN {[act |-> "fmt", d |-> d, fmt |-> "position"] : d \in Names} ELSE {},
        IF Of("drop") THEN {[act |-> "drop", d |-> d] : d \in Names} ELSE {},
        IF Of("use") THEN {[act |-> "use", what |-> "metric", fn |-> f, d |-> d, d2 |-> x, perm |-> p] :
                              f \in UseFns, d \in Names, x \in Names \cup {""}, p \in {"d", "T"}}
                            \cup {[act |-> "use", what |-> w, fn |-> "aa", d |-> d, d2 |-> "", perm |-> "d"] :
                              d \in Names, w \in {"agree", "wsize"}} ELSE {},
        IF Of("raw") THEN {Raw("f.json", f) : f \in RawFiles} ELSE {},
        IF Of("jout") THEN {[act |-> "jout", d |-> d, path |-> p, dir |-> FALSE] : d \in Names, p \in Paths}
                             \cup {[act |-> "jout", d |-> d, path |-> "folder", dir |-> TRUE] : d \in Names} ELSE {},
        IF Of("jin") THEN {[act |-> "jin", path |-> p, to |-> d] : d \in Names, p \in Paths \cup {"folder/output.json"}} ELSE {}}

(* the first names are made first *)
Init == s = DsInit /\ val = EmptyFn /\ hist = <<>> /\ end = FALSE

Rejected(e) == e.act = "iadd" /\ AddClash(s, e)
ValueNext(e) ==
    LET Row(d, i) == IF i \in DOMAIN val[d] THEN val[d][i] ELSE EmptyFn
        Union(A, B) == [i \in DOMAIN A \cup DOMAIN B |->
                            (IF i \in DOMAIN A THEN A[i] ELSE EmptyFn) @@ (IF i \in DOMAIN B THEN B[i] ELSE EmptyFn)]
        Common(A, B) == \E i \in DOMAIN A \cap DOMAIN B : DOMAIN A[i] \cap DOMAIN B[i] # {}
    IN  CASE e.act = "new" -> Put(val, e.d, Codings(e.items))
          [] e.act = "copy" -> Put(val, e.to, val[e.d])
          [] e.act = "iadd" -> IF Common(val[e.d], val[e.other]) THEN Drop(val, e.d)
                               ELSE Put(val, e.d, Union(val[e.d], val[e.other]))
          [] e.act = "add" -> IF Common(val[e.d], val[e.other]) THEN val
                              ELSE Put(val, e.to, Union(val[e.d], val[e.other]))
          [] e.act \in {"set", "poke"} -> Put(val, e.d, Put(val[e.d], e.i, Put(Row(e.d, e.i), e.c, e.v)))
          [] e.act = "delc" -> Put(val, e.d, Put(val[e.d], e.i, Drop(Row(e.d, e.i), e.c)))
          [] e.act = "deli" -> Put(val, e.d, Drop(val[e.d], e.i))
          [] e.act = "touch" -> Put(val, e.d, Put(val[e.d], e.i, Row(e.d, e.i)))
          [] e.act = "drop" -> Drop(val, e.d)
          [] e.act = "jin" -> IF Loadable(s.fs[e.path]) THEN Put(val, e.to, s.fs[e.path].items[1]) ELSE val
          [] OTHER -> val

Dropping(d) == [act |-> "drop", d |-> d]
Step(e) ==
    /\ DsEnabled(s, e)
    /\ IF Rejected(e)
       THEN s' = DsApply(s, Dropping(e.d)) /\ hist' = hist \o <<e, Dropping(e.d)>>
       ELSE s' = DsApply(s, e) /\ hist' = Append(hist, e)
    /\ val' = ValueNext(e) /\ end' = FALSE
Finish == /\ Len(hist) >= D /\ ~end /\ end' = TRUE
          /\ IF Emit THEN PrintT(<<"BEHAVIOUR", ToJson(hist)>>) ELSE TRUE
          /\ UNCHANGED <<s, val, hist>>
Next == \/ Len(hist) < D /\ \E e \in Actions : Step(e)
        \/ Finish
Spec == Init /\ [][Next]_vars

----------------------------------------------------------------------------
(* datasets hold what the operations mean, whatever objects are shared *)
Exact == /\ DOMAIN s.ds = DOMAIN val
         /\ \A d \in DOMAIN s.ds : Content(s, d) = val[d]
RoundTrip ==
    \A d \in DOMAIN s.ds :
        LET t == LoadJson(s, "loaded", JsonFile(s, d))
        IN  /\ Loadable(JsonFile(s, d))
            /\ Content(t, "loaded") = Content(s, d)
            /\ t.ds["loaded"].coders = CodersIn(Content(s, d))
            /\ OtherProps(t.ds["loaded"].props) = OtherProps(s.ds[d].props)
            /\ JsonFile(t, "loaded") = JsonFile(s, d)
CopyApart ==
    \A d \in DOMAIN s.ds :
        LET t == StoreFresh(s, "copied", Content(s, d), Meta(s, d))
            Ids(x) == UNION {{t.ds[x].items[i][c] : c \in DOMAIN t.ds[x].items[i]} : i \in DOMAIN t.ds[x].items}
        IN  /\ Content(t, "copied") = Content(s, d) /\ Meta(t, "copied") = Meta(s, d)
            /\ \A x \in DOMAIN s.ds : Ids(x) \cap Ids("copied") = {}
Target(e) == IF e.act \in {"copy", "add", "jin"} THEN {e.to} ELSE IF "d" \in DOMAIN e THEN {e.d} ELSE {}
(* an operation shows in no dataset but its target, and writing shows in none *)
Isolated ==
    [][hist' # hist =>
         LET e == hist'[Len(hist) + 1]
         IN  /\ \A d \in DOMAIN s.ds \ Target(e) :
                   d \in DOMAIN s'.ds /\ Content(s', d) = Content(s, d) /\ Meta(s', d) = Meta(s, d)
             /\ (e.act = "jout" => s'.ds = s.ds)
             /\ (e.act \notin {"jout", "raw"} => s'.fs = s.fs)
             /\ \A p \in DOMAIN s.fs : (e.act = "jout" /\ p # TargetPath(e)) => s'.fs[p] = s.fs[p]]_vars
Registered ==     \* merging registers the coders of the other
    [][(hist' # hist /\ hist'[Len(hist')].act \in {"iadd", "add"} /\ s' # s) =>
         LET e == hist'[Len(hist')]
             d == IF e.act = "add" THEN e.to ELSE e.d
         IN  CodersIn(Content(s, e.other)) \cup s.ds[e.d].coders = s'.ds[d].coders]_vars

(* states without how they came about, for the exhaustive runs *)
View == <<s, val, end>>
=============================================================================
