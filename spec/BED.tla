-------------------------------- MODULE BED --------------------------------
(***************************************************************************)
(* Boundary edit distance of two boundary strings a, b (same length).      *)
(*                                                                         *)
(* A position's pending difference is [x |-> types only in a, y |-> types  *)
(* only in b].  The near-miss scan walks all pairs (i, i+s) of positions,  *)
(* shortest span s first, left to right, up to span nt-1.  At each pair it *)
(* turns every boundary type pending at both ends, on opposite sides, into *)
(* a transposition - unless both ends also have a substitution pending,    *)
(* which is kept.  What stays pending becomes substitutions (as many as    *)
(* possible, of least total type distance, ties to the smallest types)     *)
(* and additions.                                                          *)
(*                                                                         *)
(* The scan is given as a state machine over `scan' records (ScanStep is   *)
(* one transition; MCBED.tla runs it step by step and checks invariants)   *)
(* and as its closure Scan.                                                *)
(***************************************************************************)
EXTENDS Segmentation

Pending(a, b) == [i \in DOMAIN a |-> [x |-> a[i] \ b[i], y |-> b[i] \ a[i]]]

ScanInit(a, b) == [p |-> Pending(a, b), t |-> {}]

Movable(p, i, j) == (p[i].x \cap p[j].y) \cup (p[i].y \cap p[j].x)
HasSubstitution(pi) == pi.x # {} /\ pi.y # {}

ScanStep(scan, i, j) ==
    LET m == Movable(scan.p, i, j)
    IN  IF m = {} \/ (HasSubstitution(scan.p[i]) /\ HasSubstitution(scan.p[j])) THEN scan
        ELSE [p |-> [scan.p EXCEPT ![i] = [x |-> @.x \ m, y |-> @.y \ m],
                                   ![j] = [x |-> @.x \ m, y |-> @.y \ m]],
              t |-> scan.t \cup {<<i, j, d>> : d \in m}]

(* the pairs of positions in scan order (only those that differ can matter) *)
ScanPairs(a, b, nt) ==
    LET idx == SetToSortSeq({i \in DOMAIN a : a[i] # b[i]}, LAMBDA u, v : u < v)
        diff == ToSet(idx)
        OfSpan(s) == LET from == SelectSeq(idx, LAMBDA i : (i + s) \in diff)
                     IN  [k \in DOMAIN from |-> <<from[k], from[k] + s>>]
    IN  FoldLeft(LAMBDA acc, s : acc \o OfSpan(s), <<>>,
                 [s \in 1..(IF nt > 1 THEN nt - 1 ELSE 0) |-> s])

Scan(a, b, nt) ==
    FoldLeft(LAMBDA acc, ij : ScanStep(acc, ij[1], ij[2]), ScanInit(a, b), ScanPairs(a, b, nt))

----------------------------------------------------------------------------
AbsI(n) == IF n < 0 THEN -n ELSE n
Sorted(S) == SetToSortSeq(S, LAMBDA u, v : u < v)

PairCost(u, v) == FoldLeftDomain(LAMBDA acc, k : acc + AbsI(u[k] - v[k]), 0, u)

LexLess(u, v) == \E k \in DOMAIN u : u[k] < v[k] /\ \A h \in 1..(k - 1) : u[h] = v[h]

(* the k-subset of `large' that pairs with sorted `small' at least cost,
   the lexicographically smallest one *)
Partner(small, large) ==
    LET s == Sorted(small)
        cand == {Sorted(c) : c \in kSubset(Cardinality(small), large)}
        best == Min({PairCost(s, c) : c \in cand})
    IN  CHOOSE c \in cand : /\ PairCost(s, c) = best
                            /\ \A e \in cand : PairCost(s, e) = best => (e = c \/ LexLess(c, e))

(* substitutions of one position: set of <<type in a, type in b>> *)
SubsOf(pi) ==
    IF pi.x = {} \/ pi.y = {} THEN {}
    ELSE IF Cardinality(pi.x) <= Cardinality(pi.y)
         THEN LET s == Sorted(pi.x)
                  c == Partner(pi.x, pi.y) IN {<<s[k], c[k]>> : k \in DOMAIN s}
         ELSE LET s == Sorted(pi.y)
                  c == Partner(pi.y, pi.x) IN {<<c[k], s[k]>> : k \in DOMAIN s}

(* additions of one position: set of <<type, side>> *)
AddsOf(pi) ==
    LET u == SubsOf(pi)
    IN  {<<d, "a">> : d \in pi.x \ {s[1] : s \in u}} \cup
        {<<d, "b">> : d \in pi.y \ {s[2] : s \in u}}

(* bags, as functions from elements to positive counts *)
BagOf(seq) == [x \in Range(seq) |-> Cardinality({i \in DOMAIN seq : seq[i] = x})]
Flatten(seqOfSets) == FoldLeft(LAMBDA acc, s : acc \o SetToSeq(s), <<>>, seqOfSets)

(* edits as sequences; their order carries no meaning *)
Edits(a, b, nt) ==
    LET sc == Scan(a, b, nt)
    IN  [add |-> Flatten([i \in DOMAIN a |-> AddsOf(sc.p[i])]),
         sub |-> Flatten([i \in DOMAIN a |-> SubsOf(sc.p[i])]),
         tr  |-> SetToSeq({<<t[1] - 1, t[2] - 1, t[3]>> : t \in sc.t})]
=============================================================================
