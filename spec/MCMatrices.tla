----------------------------- MODULE MCMatrices -----------------------------
(***************************************************************************)
(* Confusion-matrix objects under every sequence of accesses (C16).  The   *)
(* heap of Matrices is run next to a ghost that has no heap: `ghost' maps  *)
(* <<matrix, row, column>> to the value last given to the cell, `here' the *)
(* rows that exist.  Behaviours of length D are printed as scripts, which  *)
(* the conformance harness replays on the library's ConfusionMatrix.       *)
(***************************************************************************)
EXTENDS Session, TLC, Json
CONSTANTS Mats, Labels, Values, Handles, D, Emit
VARIABLES cm, ghost, here, hist, end
vars == <<cm, ghost, here, hist, end>>

Ev(act, f) == Put(f, "act", act)
F2(a, x, b, y) == Put(Put(EmptyFn, a, x), b, y)
Actions ==
       {F2("act", act, "mat", m) @@ [p |-> p, a |-> a] :
            act \in {"get", "delcell"}, m \in Mats, p \in Labels, a \in Labels}
  \cup {F2("act", act, "mat", m) @@ [p |-> p, a |-> a, v |-> <<v, 1>>] :
            act \in {"set", "inc"}, m \in Mats, p \in Labels, a \in Labels, v \in Values}
  \cup {F2("act", act, "mat", m) @@ [p |-> p] : act \in {"delrow", "setrow"}, m \in Mats, p \in Labels}
  \cup {F2("act", "row", "mat", m) @@ [p |-> p, h |-> h] : m \in Mats, p \in Labels, h \in Handles}
  \cup {F2("act", "hget", "h", h) @@ [a |-> a] : h \in Handles, a \in Labels}
  \cup {F2("act", "hset", "h", h) @@ [a |-> a, v |-> <<v, 1>>] : h \in Handles, a \in Labels, v \in Values}
  \cup {F2("act", act, "mat", m) : act \in {"clear", "classes"}, m \in Mats}
  \cup {F2("act", "taint", "mat", m) @@ [a |-> a] : m \in Mats, a \in Labels}

Init == /\ cm = FoldSet(LAMBDA m, s : CmApply(s, [act |-> "new", mat |-> m]), CmInit, Mats)
        /\ ghost = EmptyFn /\ here = {} /\ hist = <<>> /\ end = FALSE

(* the ghost: what the accesses mean, cell by cell *)
Attached(h) == {mp \in Mats \X Labels : mp[2] \in DOMAIN cm.mats[mp[1]]
                                        /\ cm.mats[mp[1]][mp[2]] = cm.held[h]}
Given(g, k, v) == Put(g, k, v)
GhostNext(e) ==
    LET At(m, p, a) == <<m, p, a>>
        Zero(g, k) == IF k \in DOMAIN g THEN g ELSE Given(g, k, QZero)
        Old(k) == IF k \in DOMAIN ghost THEN ghost[k] ELSE QZero
        Without(S) == [k \in DOMAIN ghost \ S |-> ghost[k]]
    IN  CASE e.act = "get" -> Zero(ghost, At(e.mat, e.p, e.a))
          [] e.act = "set" -> Given(ghost, At(e.mat, e.p, e.a), QOf(e.v))
          [] e.act = "inc" -> Given(ghost, At(e.mat, e.p, e.a), QAdd(Old(At(e.mat, e.p, e.a)), QOf(e.v)))
          [] e.act = "hset" -> FoldSet(LAMBDA mp, g : Given(g, At(mp[1], mp[2], e.a), QOf(e.v)), ghost, Attached(e.h))
          [] e.act = "hget" -> FoldSet(LAMBDA mp, g : Zero(g, At(mp[1], mp[2], e.a)), ghost, Attached(e.h))
          [] e.act = "delcell" -> Without({At(e.mat, e.p, e.a)})
          [] e.act = "delrow" -> Without({k \in DOMAIN ghost : k[1] = e.mat /\ k[2] = e.p})
          [] e.act = "clear" -> Without({k \in DOMAIN ghost : k[1] = e.mat})
          [] OTHER -> ghost
HereNext(e) ==
    CASE e.act \in {"get", "set", "inc", "row"} -> here \cup {<<e.mat, e.p>>}
      [] e.act = "delrow" -> here \ {<<e.mat, e.p>>}
      [] e.act = "clear" -> {x \in here : x[1] # e.mat}
      [] OTHER -> here

Step(e) == /\ CmEnabled(cm, e)
           /\ cm' = CmApply(cm, e)
           /\ ghost' = GhostNext(e) /\ here' = HereNext(e)
           /\ hist' = Append(hist, e) /\ end' = FALSE
Finish == /\ Len(hist) = D /\ ~end /\ end' = TRUE
          /\ IF Emit THEN PrintT(<<"BEHAVIOUR", ToJson(hist)>>) ELSE TRUE
          /\ UNCHANGED <<cm, ghost, here, hist>>
Next == \/ Len(hist) < D /\ \E e \in Actions : Step(e)
        \/ Finish
Spec == Init /\ [][Next]_vars

----------------------------------------------------------------------------
Latest == hist[Len(hist)]
LastGiven ==
    \A m \in Mats :
        LET v == MatrixValue(cm, m)
        IN  /\ DOMAIN v = {p \in Labels : <<m, p>> \in here}
            /\ \A p \in DOMAIN v :
                  /\ DOMAIN v[p] = {a \in Labels : <<m, p, a>> \in DOMAIN ghost}
                  /\ \A a \in DOMAIN v[p] : QEq(v[p][a], ghost[<<m, p, a>>])
(* no two matrices share a row *)
Independent ==
    \A m, n \in Mats : m # n =>
        {cm.mats[m][p] : p \in DOMAIN cm.mats[m]} \cap {cm.mats[n][p] : p \in DOMAIN cm.mats[n]} = {}
ClassesExact ==
    \A m \in Mats : Classes(MatrixValue(cm, m)) =
        {x[2] : x \in {y \in here : y[1] = m}} \cup {k[3] : k \in {j \in DOMAIN ghost : j[1] = m}}
Reads == (hist # <<>> /\ CmReads(Latest) /\ Latest.act # "hget") =>
            QEq(CmRead(cm, Latest), ghost[<<Latest.mat, Latest.p, Latest.a>>])
(* accesses through one matrix never change another *)
Frame == [][\A m \in Mats :
              (hist' # hist /\ "mat" \in DOMAIN hist'[Len(hist')] /\ hist'[Len(hist')].mat # m)
                 => MatrixValue(cm', m) = MatrixValue(cm, m)]_vars
QueriesChangeNothing ==
    [][(hist' # hist /\ hist'[Len(hist')].act \in {"classes", "taint", "setrow"}) => cm' = cm]_vars

(* states without how they came about, but for the latest access *)
View == <<cm, ghost, here, end, IF hist = <<>> THEN <<>> ELSE Latest>>
=============================================================================
