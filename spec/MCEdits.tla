------------------------------ MODULE MCEdits ------------------------------
(***************************************************************************)
(* The near-miss scan as a state machine: todo lists the pairs of          *)
(* positions still to be visited, sc is the scan so far.  TLC runs it on   *)
(* every pair of boundary strings of length 1..L over NTypes types and     *)
(* every span in NTs, and checks that what C03 - C06 say of boundary edit  *)
(* distance holds of the specification itself.                             *)
(***************************************************************************)
EXTENDS Similarity, TLC
CONSTANTS L, NTypes, NTs
VARIABLES a, b, nt, sc, todo, stage
vars == <<a, b, nt, sc, todo, stage>>

Strings(n) == [1..n -> SUBSET (1..NTypes)]

Init == /\ \E n \in 1..L : a \in Strings(n)
        /\ b = a /\ nt \in NTs
        /\ sc = ScanInit(a, a) /\ todo = <<>> /\ stage = "choose"
Choose == /\ stage = "choose"
          /\ b' \in Strings(Len(a))
          /\ sc' = ScanInit(a, b') /\ todo' = ScanPairs(a, b', nt) /\ stage' = "scan"
          /\ UNCHANGED <<a, nt>>
Visit == /\ stage = "scan" /\ todo # <<>>
         /\ sc' = ScanStep(sc, todo[1][1], todo[1][2])
         /\ todo' = Tail(todo)
         /\ UNCHANGED <<a, b, nt, stage>>
Next == Choose \/ Visit
Spec == Init /\ [][Next]_vars

----------------------------------------------------------------------------
TypesUsed == 1..NTypes
Difference(i, x) == (x \in a[i]) # (x \in b[i])
Taken(i, x) == {t \in sc.t : t[3] = x /\ (t[1] = i \/ t[2] = i)}

(* every boundary of one side only is pending or in exactly one transposition *)
Conserved ==
    \A i \in DOMAIN a, x \in TypesUsed :
        LET pending == (IF x \in sc.p[i].x THEN 1 ELSE 0) + (IF x \in sc.p[i].y THEN 1 ELSE 0)
        IN  pending + Cardinality(Taken(i, x)) = (IF Difference(i, x) THEN 1 ELSE 0)
Opposite(t) == (t[3] \in a[t[1]] \ b[t[1]] /\ t[3] \in b[t[2]] \ a[t[2]])
                 \/ (t[3] \in b[t[1]] \ a[t[1]] /\ t[3] \in a[t[2]] \ b[t[2]])
NearAndOpposite ==
    \A t \in sc.t : /\ t[1] < t[2] /\ t[2] - t[1] < nt
                    /\ Opposite(t)
(* no unused near miss is left within reach, but for kept substitutions *)
Maximal ==
    (stage = "scan" /\ todo = <<>>) =>
        \A i, j \in DOMAIN a : (i < j /\ j - i < nt) =>
            (Movable(sc.p, i, j) = {} \/ \E q \in {i, j} : HasSubstitution(Pending(a, b)[q]))
Closure == (stage = "scan" /\ todo = <<>>) => sc = Scan(a, b, nt)

Done == stage = "scan" /\ todo = <<>>
Ed == Edits(a, b, nt)
Count(e) == Len(e.add) + Len(e.sub) + Len(e.tr)
MirrorEdits ==
    Done => LET x == Ed
                y == Edits(b, a, nt)
            IN  /\ ToSet(x.tr) = ToSet(y.tr)
                /\ BagOf(x.sub) = BagOf([k \in DOMAIN y.sub |-> <<y.sub[k][2], y.sub[k][1]>>])
                /\ BagOf(x.add) = BagOf([k \in DOMAIN y.add |->
                                            <<y.add[k][1], IF y.add[k][2] = "a" THEN "b" ELSE "a">>])
Bounded ==
    Done => LET n == Count(Ed)
                m == Len(MissesOf(a, b))
            IN  /\ n <= m /\ ((n = 0) = (a = b))
                /\ m = Len(Ed.add) + 2 * (Len(Ed.sub) + Len(Ed.tr))
(* additions never on both sides of a position, substitutions as many as the
   smaller side, at least total distance over all ways to pair *)
LeastDistance ==
    Done => \A i \in DOMAIN a :
        LET p == sc.p[i]
            s == SubsOf(p)
            k == Min({Cardinality(p.x), Cardinality(p.y)})
            Dist(f) == FoldSet(LAMBDA x, acc : acc + AbsI(x - f[x]), 0, DOMAIN f)
            Pairings == UNION {{f \in [c -> p.y] : \A u, v \in c : u # v => f[u] # f[v]} :
                                  c \in kSubset(k, p.x)}
        IN  /\ Cardinality(s) = k
            /\ \A f \in Pairings :
                  FoldSet(LAMBDA q, acc : acc + AbsI(q[1] - q[2]), 0, s) <= Dist(f)
(* one type, default span: no set of disjoint steps and additions is smaller *)
AdjacentSwaps == {i \in 1..(Len(a) - 1) : Difference(i, 1) /\ Difference(i + 1, 1)
                                          /\ (1 \in a[i]) # (1 \in a[i + 1])}
Fewest ==
    (Done /\ NTypes = 1 /\ nt = 2) =>
        LET m == Len(MissesOf(a, b))
            Apart(S) == \A i, j \in S : i # j => (i - j) \notin {-1, 1}
            best == m - Max({Cardinality(S) : S \in {T \in SUBSET AdjacentSwaps : Apart(T)}})
        IN  Count(Ed) = best /\ FewestEdits(a, b) = best
=============================================================================
