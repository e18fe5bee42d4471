------------------------------ MODULE Matrices ------------------------------
(***************************************************************************)
(* Confusion matrices as objects with a history.  The state of a session:  *)
(*   mats   matrix name -> (label -> row id)                               *)
(*   rows   row id -> (label -> exact value)                               *)
(*   held   handle -> row id          rows the caller keeps a reference to *)
(* Reading a row that is not there creates it, reading a cell of a row     *)
(* that is not there creates it with 0.  A removed row lives on for those  *)
(* who hold it.  Row ids are never reused.                                 *)
(***************************************************************************)
EXTENDS Learning, Segmentation, Similarity

CmInit == [mats |-> EmptyFn, rows |-> <<>>, held |-> EmptyFn]

MatrixValue(st, m) == [p \in DOMAIN st.mats[m] |-> st.rows[st.mats[m][p]]]

WithRow(st, m, p) ==          \* the state in which row p of m exists
    IF p \in DOMAIN st.mats[m] THEN st
    ELSE [st EXCEPT !.rows = Append(@, EmptyFn),
                    !.mats[m] = Put(@, p, Len(st.rows) + 1)]
WithCell(st, r, a) ==         \* ... cell a of row r exists
    IF a \in DOMAIN st.rows[r] THEN st ELSE [st EXCEPT !.rows[r] = Put(@, a, QZero)]
RowOf(st, m, p) == st.mats[m][p]

SetCell(st, r, a, v) == [st EXCEPT !.rows[r] = Put(@, a, v)]
DropCell(st, r, a) == [st EXCEPT !.rows[r] = Drop(@, a)]

(* matrix m made anew with the cells <<row, column>> -> value *)
Filled(st, m, cells) ==
    FoldSet(LAMBDA c, s : LET t == WithRow(s, m, c[1]) IN SetCell(t, RowOf(t, m, c[1]), c[2], cells[c]),
            [st EXCEPT !.mats = Put(@, m, EmptyFn)], DOMAIN cells)
(* the boundary confusion matrix of strings e.a, e.b (<<type, label>> pairs
   e.names say which label stands for which type) *)
CellsFrom(e) ==
    LET cells == ConfusionCells(StringOf(e.a), StringOf(e.b), IF e.nt = -1 THEN 2 ELSE e.nt, DefaultWeights)
        Lab(t) == e.names[CHOOSE k \in DOMAIN e.names : e.names[k][1] = t][2]
    IN  [c \in {<<Lab(x[1]), Lab(x[2])>> : x \in DOMAIN cells} |->
            cells[CHOOSE x \in DOMAIN cells : <<Lab(x[1]), Lab(x[2])>> = c]]

(* an action is enabled when the removal or reference it makes exists *)
CmEnabled(st, e) ==
    CASE e.act \in {"new", "from"} -> TRUE
      [] e.act \in {"get", "set", "inc", "row", "setrow", "classes", "taint", "clear", "measure"} ->
            e.mat \in DOMAIN st.mats
      [] e.act = "delrow" -> e.mat \in DOMAIN st.mats /\ e.p \in DOMAIN st.mats[e.mat]
      [] e.act = "delcell" -> e.mat \in DOMAIN st.mats /\ e.p \in DOMAIN st.mats[e.mat]
                                /\ e.a \in DOMAIN st.rows[RowOf(st, e.mat, e.p)]
      [] e.act \in {"hget", "hset"} -> e.h \in DOMAIN st.held

CmApply(st, e) ==
    CASE e.act = "new" -> [st EXCEPT !.mats = Put(@, e.mat, EmptyFn)]
      [] e.act = "from" -> Filled(st, e.mat, CellsFrom(e))
      [] e.act = "get" -> LET s == WithRow(st, e.mat, e.p) IN WithCell(s, RowOf(s, e.mat, e.p), e.a)
      [] e.act = "set" -> LET s == WithRow(st, e.mat, e.p)
                          IN  SetCell(s, RowOf(s, e.mat, e.p), e.a, QOf(e.v))
      [] e.act = "inc" -> LET s == WithRow(st, e.mat, e.p)
                              r == RowOf(s, e.mat, e.p)
                              old == IF e.a \in DOMAIN s.rows[r] THEN s.rows[r][e.a] ELSE QZero
                          IN  SetCell(s, r, e.a, QAdd(old, QOf(e.v)))
      [] e.act = "row" -> LET s == WithRow(st, e.mat, e.p)
                          IN  [s EXCEPT !.held = Put(@, e.h, RowOf(s, e.mat, e.p))]
      [] e.act = "hget" -> WithCell(st, st.held[e.h], e.a)
      [] e.act = "hset" -> SetCell(st, st.held[e.h], e.a, QOf(e.v))
      [] e.act = "delrow" -> [st EXCEPT !.mats[e.mat] = Drop(@, e.p)]
      [] e.act = "delcell" -> DropCell(st, RowOf(st, e.mat, e.p), e.a)
      [] e.act = "clear" -> [st EXCEPT !.mats[e.mat] = EmptyFn]
      [] e.act \in {"setrow", "classes", "taint", "measure"} -> st

(* the exact number an action returns, where it returns one *)
CmReads(e) == e.act \in {"get", "inc", "hget"}
CmRead(st, e) ==            \* in the state after the action
    IF e.act = "hget" THEN st.rows[st.held[e.h]][e.a]
    ELSE st.rows[RowOf(st, e.mat, e.p)][e.a]
=============================================================================
