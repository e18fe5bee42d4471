------------------------------ MODULE Datasets ------------------------------
(***************************************************************************)
(* Datasets as objects.  The state of a session:                           *)
(*   ds    dataset name -> [items  : item -> (coder -> value id),          *)
(*                          coders : set of registered coders,             *)
(*                          props  : key -> value (canonical text),        *)
(*                          types  : set of boundary types, fmt : format]  *)
(*   vals  value id -> segmentation (a sequence of masses); two places     *)
(*         with the same id share one object                               *)
(*   fs    path -> file                                                    *)
(* A file is [k |-> "json", type, items, props] with type a sequence of at *)
(* most one name and items a sequence of at most one mapping, or           *)
(* [k |-> "bad"] (not JSON), or [k |-> "table", rows] with rows of <<coder,*)
(* numbers>>.                                                              *)
(***************************************************************************)
EXTENDS Learning, Segmentation

DsInit == [ds |-> EmptyFn, vals |-> <<>>, fs |-> EmptyFn]

(* sequences of <<key, value>> pairs to functions *)
FnOf(pairs) == [x \in {pairs[k][1] : k \in DOMAIN pairs} |->
                    pairs[CHOOSE k \in DOMAIN pairs : pairs[k][1] = x][2]]
Codings(items) == LET f == FnOf(items) IN [i \in DOMAIN f |-> FnOf(f[i])]

(* the dataset's content by value *)
Content(st, d) ==
    LET it == st.ds[d].items
    IN  [i \in DOMAIN it |-> [c \in DOMAIN it[i] |-> st.vals[it[i][c]]]]
CodersIn(content) == UNION {DOMAIN content[i] : i \in DOMAIN content}

(* store the mapping `content' under fresh value ids *)
Places(content) == SetToSeq(UNION {{<<i, c>> : c \in DOMAIN content[i]} : i \in DOMAIN content})
StoreFresh(st, d, content, meta) ==
    LET pl == Places(content)
        base == Len(st.vals)
        IdOf(i, c) == base + (CHOOSE k \in DOMAIN pl : pl[k] = <<i, c>>)
    IN  [st EXCEPT !.vals = @ \o [k \in DOMAIN pl |-> content[pl[k][1]][pl[k][2]]],
                   !.ds = Put(@, d, [items |-> [i \in DOMAIN content |->
                                                    [c \in DOMAIN content[i] |-> IdOf(i, c)]],
                                     coders |-> meta.coders, props |-> meta.props,
                                     types |-> meta.types, fmt |-> meta.fmt])]

Meta(st, d) == [coders |-> st.ds[d].coders, props |-> st.ds[d].props,
                types |-> st.ds[d].types, fmt |-> st.ds[d].fmt]

(* merging codings B (item -> coder -> id) into A *)
Clash(A, B) == \E i \in DOMAIN A \cap DOMAIN B : DOMAIN A[i] \cap DOMAIN B[i] # {}
Merge(A, B) ==
    [i \in DOMAIN A \cup DOMAIN B |->
        IF i \notin DOMAIN B THEN A[i] ELSE IF i \notin DOMAIN A THEN B[i]
        ELSE [c \in DOMAIN A[i] \cup DOMAIN B[i] |-> IF c \in DOMAIN A[i] THEN A[i][c] ELSE B[i][c]]]

MergeInto(st, d, other) ==      \* d += other, without clash
    [st EXCEPT !.ds[d].items = Merge(@, st.ds[other].items),
               !.ds[d].coders = @ \cup CodersIn(st.ds[other].items)]

(* what a rejected += may leave of A: everything it had, and perhaps some
   codings and coders of B *)
PartlyMerged(A, B, R) ==
    /\ DOMAIN A \subseteq DOMAIN R /\ DOMAIN R \subseteq DOMAIN A \cup DOMAIN B
    /\ \A i \in DOMAIN R :
          LET a == IF i \in DOMAIN A THEN A[i] ELSE EmptyFn
              b == IF i \in DOMAIN B THEN B[i] ELSE EmptyFn
          IN  /\ DOMAIN a \subseteq DOMAIN R[i] /\ DOMAIN R[i] \subseteq DOMAIN a \cup DOMAIN b
              /\ \A c \in DOMAIN R[i] : R[i][c] = (IF c \in DOMAIN a THEN a[c] ELSE b[c])

Shared(st, id) ==               \* an object that two places hold
    Cardinality({<<d, i, c>> \in UNION {{<<d, i, c>> : i \in DOMAIN st.ds[d].items,
                                                       c \in UNION {DOMAIN st.ds[d].items[j] : j \in DOMAIN st.ds[d].items}}
                                        : d \in DOMAIN st.ds} :
                    c \in DOMAIN st.ds[d].items[i] /\ st.ds[d].items[i][c] = id}) > 1

----------------------------------------------------------------------------
(* files *)
LinearType == "linear"
(* the names that stand for the type and the codings in a file give way to them *)
OtherProps(props) == Drop(Drop(props, "segmentation_type"), "items")
JsonFile(st, d) ==              \* what writing d as JSON puts into the file
    [k |-> "json", type |-> <<LinearType>>, items |-> <<Content(st, d)>>,
     props |-> OtherProps(st.ds[d].props)]
Loadable(file) == file.k = "json" /\ file.type = <<LinearType>> /\ file.items # <<>>

LoadedMeta(content, props) ==
    [coders |-> CodersIn(content), props |-> props, types |-> {1}, fmt |-> "mass"]

(* properties are stored as JSON text *)
Quoted(s) == "\"" \o s \o "\""
LoadJson(st, d, file) ==
    StoreFresh(st, d, file.items[1],
               LoadedMeta(file.items[1], Put(file.props, "segmentation_type", Quoted(LinearType))))

(* rows of a delimited file: <<coder, numbers>> *)
TableContent(item, rows, asPositions) ==
    [i \in {item} |-> LET f == FnOf(rows)
                      IN  [c \in DOMAIN f |-> IF asPositions THEN MassesOfPositions(f[c]) ELSE f[c]]]
=============================================================================
