---------------------------- MODULE Segmentation ----------------------------
(***************************************************************************)
(* The four encodings of a linear segmentation of n >= 1 units, and their  *)
(* common meaning: the boundary string, a sequence of n-1 sets of boundary *)
(* types, one per potential boundary position.                             *)
(*   mass      <<2,3>>            sizes of the segments                    *)
(*   position  <<1,1,2,2,2>>      label of each unit's segment             *)
(*   nltk      <<0,1,0,0>>        characters, 1 = boundary                 *)
(*   sets      <<{},{1},{},{}>>   boundary types at each position          *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, FiniteSetsExt

SumSeq(s) == FoldLeft(LAMBDA acc, x : acc + x, 0, s)

(* <<m1, m1+m2, ...>> *)
RunningTotals(s) ==
    FoldLeft(LAMBDA acc, x : Append(acc, x + (IF acc = <<>> THEN 0 ELSE acc[Len(acc)])),
             <<>>, s)

BoundaryString(masses) ==
    LET ends == ToSet(RunningTotals(SubSeq(masses, 1, Len(masses) - 1)))
    IN  [i \in 1..(SumSeq(masses) - 1) |-> IF i \in ends THEN {1} ELSE {}]

MassesOfPositions(p) ==
    LET r == FoldLeft(LAMBDA acc, x :
                 IF acc.n > 0 /\ x = acc.x THEN [acc EXCEPT !.n = @ + 1]
                 ELSE [m |-> IF acc.n > 0 THEN Append(acc.m, acc.n) ELSE acc.m,
                       n |-> 1, x |-> x],
                 [m |-> <<>>, n |-> 0, x |-> 0], p)
    IN  IF r.n = 0 THEN r.m ELSE Append(r.m, r.n)

PositionsOfMasses(masses) ==
    FoldLeftDomain(LAMBDA acc, i : acc \o [j \in 1..masses[i] |-> i], <<>>, masses)

MassesOfNltk(chars) ==
    LET r == FoldLeft(LAMBDA acc, c :
                 IF c = 1 THEN [m |-> Append(acc.m, acc.n), n |-> 1]
                          ELSE [acc EXCEPT !.n = @ + 1],
                 [m |-> <<>>, n |-> 1], chars)
    IN  Append(r.m, r.n)

(* masses of the segments that a boundary string delimits *)
MassesOfString(bs) ==
    LET ends == SetToSortSeq({i \in DOMAIN bs : bs[i] # {}}, LAMBDA x, y : x < y) \o <<Len(bs) + 1>>
    IN  [k \in 1..Len(ends) |-> ends[k] - (IF k = 1 THEN 0 ELSE ends[k - 1])]

NltkOfString(bs) == [i \in DOMAIN bs |-> IF bs[i] = {} THEN 0 ELSE 1]

SegFormats == {"mass", "position", "nltk", "sets"}

(* what a logged segmentation [f |-> format, v |-> value] means *)
StringOf(seg) ==
    CASE seg.f = "mass" -> BoundaryString(seg.v)
      [] seg.f = "position" -> BoundaryString(MassesOfPositions(seg.v))
      [] seg.f = "nltk" -> BoundaryString(MassesOfNltk(seg.v))
      [] seg.f = "sets" -> [i \in DOMAIN seg.v |-> ToSet(seg.v[i])]

Units(bs) == Len(bs) + 1

AllTypes(a, b) == UNION (Range(a) \cup Range(b))
(* segmentations without boundaries still have potential boundaries *)
TypesOf(a, b) == LET t == AllTypes(a, b) IN IF t = {} THEN {1} ELSE t
=============================================================================
