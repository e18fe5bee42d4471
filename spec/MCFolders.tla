----------------------------- MODULE MCFolders -----------------------------
(***************************************************************************)
(* Loading a folder tree (C25).  First a tree is grown, file by file; then *)
(* its files are read one at a time in any order - the order in which a    *)
(* file system lists them is not ours to choose - each being merged into   *)
(* what was read before.  Whatever the order, the result is the dataset of *)
(* all codings of all files of the chosen type, or a rejection when two of *)
(* them hold the same coding or one cannot be read.  Finished trees are    *)
(* printed for the harness to build and load.                              *)
(***************************************************************************)
EXTENDS Session, TLC, Json
CONSTANTS Folders, Stems, Types, Files, Emit
VARIABLES tree, type, todo, acc, ok, stage
vars == <<tree, type, todo, acc, ok, stage>>

TwoLevels == {<<>>, <<"g">>, <<"g", "h">>, <<"x">>}
OneLevel == {<<>>, <<"g">>}

Table(rows) == [k |-> "table", rows |-> rows]
Object(items) == [k |-> "json", type |-> <<"linear">>, items |-> <<items>>, props |-> <<>>]
Tables == {Table(<<<<"c", <<1, 2>>>>>>), Table(<<<<"d", <<3>>>>>>), Table(<<<<"d", <<2, 1>>>>, <<"c", <<1, 1, 1>>>>>>)}
Objects == {Object(<<<<"i", <<<<"c", <<1, 2>>>>>>>>>>), Object(<<<<"i", <<<<"d", <<3>>>>>>>>, <<"j", <<<<"c", <<3>>>>>>>>>>),
            Object(<<>>), [k |-> "bad", text |-> "{"]}
(* extensions of either kind, and one that is of none *)
Contents == {<<".tsv", t>> : t \in Tables} \cup {<<".CSV", t>> : t \in Tables}
            \cup {<<".json", o>> : o \in Objects} \cup {<<".Jsn", o>> : o \in Objects}
            \cup {<<".txt", [k |-> "bad", text |-> "junk"]>>}
Named(f) == <<f.path, f.stem, f.ext>>

Init == tree = <<>> /\ type \in Types /\ todo = {} /\ acc = EmptyFn /\ ok = TRUE /\ stage = "grow"

(* one order of growing per tree *)
Rank(f) == Named(f)
Grow(f) ==
    /\ stage = "grow" /\ Len(tree) < Files
    /\ \A k \in DOMAIN tree : Named(tree[k]) # Named(f)
    /\ tree' = Append(tree, f)
    /\ UNCHANGED <<type, todo, acc, ok, stage>>
Chosen == {k \in DOMAIN tree : tree[k].ext \in Extensions(type)}
Start ==
    /\ stage = "grow" /\ tree # <<>>
    /\ todo' = Chosen /\ stage' = "read"
    /\ IF Emit THEN PrintT(<<"BEHAVIOUR", ToJson(<<[act |-> "tree", type |-> type, files |-> tree]>>)>>) ELSE TRUE
    /\ UNCHANGED <<tree, type, acc, ok>>
Read(k) ==
    /\ stage = "read" /\ k \in todo /\ ok
    /\ todo' = todo \ {k}
    /\ IF ~ReadableFile(tree[k]) \/ Clash(acc, Prefixed(<<>>, tree[k])) THEN ok' = FALSE /\ acc' = acc
       ELSE acc' = Merge(acc, Prefixed(<<>>, tree[k])) /\ ok' = TRUE
    /\ UNCHANGED <<tree, type, stage>>
Everything == [path : Folders, stem : Stems, at : Contents]
Next == \/ \E x \in Everything : Grow([path |-> x.path, stem |-> x.stem, ext |-> x.at[1], file |-> x.at[2]])
        \/ Start
        \/ \E k \in DOMAIN tree : ~Emit /\ Read(k)
Spec == Init /\ [][Next]_vars

Done == stage = "read" /\ (todo = {} \/ ~ok)
(* the codings of a file under their full names: <<path, item, coder, masses>> *)
Codes(k) == LET c == FileContent(tree[k])
            IN  UNION {{<<tree[k].path, i, x, c[i][x]>> : x \in DOMAIN c[i]} : i \in DOMAIN c}
SameCoding(p, q) == <<p[1], p[2], p[3]>> = <<q[1], q[2], q[3]>>
Clashing == \/ \E k \in Chosen : ~ReadableFile(tree[k])
            \/ \E k, l \in Chosen : k # l /\ ReadableFile(tree[k]) /\ ReadableFile(tree[l])
                                    /\ \E p \in Codes(k), q \in Codes(l) : SameCoding(p, q)
Outcome == IF ~ok THEN [k |-> "err", c |-> "data"]
           ELSE LET is == SetToSeq(DOMAIN acc)
                IN  [k |-> "ds", coders |-> SetToSeq(CodersIn(acc)),
                     items |-> [j \in DOMAIN is |->
                        LET cs == SetToSeq(DOMAIN acc[is[j]])
                        IN  <<is[j], [l \in DOMAIN cs |-> <<cs[l], acc[is[j]][cs[l]]>>]>>]]

(* rejected exactly if something is wrong with some file or some two files *)
Rejected == Done => (ok = ~Clashing)
(* every coding arrives under its own name, and nothing else does *)
Complete ==
    (Done /\ ok) =>
        LET all == UNION {Codes(k) : k \in Chosen}
        IN  /\ \A p \in all : acc[JoinPath(p[1], p[2])][p[3]] = p[4]
            /\ Cardinality(all) = Cardinality(UNION {{<<i, x>> : x \in DOMAIN acc[i]} : i \in DOMAIN acc})
(* the contract that recorded loads are judged by accepts the outcome of every order *)
Judged == Done => FoldersOK([files |-> tree, type |-> type, res |-> Outcome])
=============================================================================
