---------------------------- MODULE MCEncodings ----------------------------
(***************************************************************************)
(* The encodings of a segmentation and the conversions between them: every *)
(* segmentation up to N units is grown unit by unit, each new unit either  *)
(* joining the last segment or starting one.  All four encodings are kept  *)
(* along the way and must stay descriptions of the same boundary string    *)
(* (C01, C02).                                                             *)
(***************************************************************************)
EXTENDS Segmentation, TLC
CONSTANTS N
VARIABLES mass, position, nltk, sets
vars == <<mass, position, nltk, sets>>
Init == mass = <<1>> /\ position = <<1>> /\ nltk = <<>> /\ sets = <<>>
Join == /\ mass' = [mass EXCEPT ![Len(mass)] = @ + 1]
        /\ position' = Append(position, position[Len(position)])
        /\ nltk' = Append(nltk, 0) /\ sets' = Append(sets, <<>>)
Start == /\ mass' = Append(mass, 1)
         /\ position' = Append(position, position[Len(position)] + 1)
         /\ nltk' = Append(nltk, 1) /\ sets' = Append(sets, <<1>>)
Next == Len(position) < N /\ (Join \/ Start)
Spec == Init /\ [][Next]_vars

Bs == BoundaryString(mass)
OneMeaning == /\ StringOf([f |-> "mass", v |-> mass]) = Bs
              /\ StringOf([f |-> "position", v |-> position]) = Bs
              /\ StringOf([f |-> "nltk", v |-> nltk]) = Bs
              /\ StringOf([f |-> "sets", v |-> sets]) = Bs
(* labels only name segments: any relabelling that tells neighbours apart *)
Labels == \A f \in [1..Len(mass) -> {1, 2, 5}] :
              (\A s \in 1..(Len(mass) - 1) : f[s] # f[s + 1]) =>
                  MassesOfPositions([i \in DOMAIN position |-> f[position[i]]]) = mass
RoundTrips == /\ PositionsOfMasses(mass) = position
           /\ MassesOfPositions(position) = mass
           /\ MassesOfNltk(nltk) = mass
           /\ MassesOfString(Bs) = mass
           /\ NltkOfString(Bs) = nltk
Sizes == /\ SumSeq(mass) = Len(position) /\ Len(Bs) = Len(position) - 1
         /\ Len(nltk) = Len(Bs) /\ Units(Bs) = SumSeq(mass)
         /\ Cardinality({i \in DOMAIN Bs : Bs[i] # {}}) = Len(mass) - 1
=============================================================================
