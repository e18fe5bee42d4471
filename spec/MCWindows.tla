----------------------------- MODULE MCWindows -----------------------------
(***************************************************************************)
(* Sliding a window over a pair of segmentations, unit by unit, with the   *)
(* number of boundaries inside the window of each kept up to date as the   *)
(* window moves.  Checked against the definitions of Pk and WindowDiff for *)
(* every pair up to N units and every window size, with the laws of C12    *)
(* and C13.                                                                *)
(***************************************************************************)
EXTENDS Windows, TLC
CONSTANTS N
VARIABLES hyp, ref, k, lam, at, inH, inR, pkc, wdc
vars == <<hyp, ref, k, lam, at, inH, inR, pkc, wdc>>

Strings(n) == [1..n -> {{}, {1}}]
Text(bs) == IF lam THEN Extend(bs, k) ELSE bs
One(s, i) == IF i \in DOMAIN s /\ s[i] # {} THEN 1 ELSE 0
CountIn(s, i, j) == Cardinality({p \in i..j : p \in DOMAIN s /\ s[p] # {}})

Init == /\ \E n \in 0..(N - 1) : hyp \in Strings(n)
        /\ ref = hyp /\ k \in 1..N /\ lam \in BOOLEAN
        /\ at = -1 /\ inH = 0 /\ inR = 0 /\ pkc = 0 /\ wdc = 0
(* the first window covers units 1..k+1, boundary positions 1..k *)
Choose == /\ at = -1
          /\ ref' \in Strings(Len(hyp))
          /\ at' = 0
          /\ inH' = CountIn(Text(hyp), 1, k)
          /\ inR' = CountIn(Text(ref'), 1, k)
          /\ UNCHANGED <<hyp, k, lam, pkc, wdc>>
Slide == /\ at >= 0 /\ at + k < Units(Text(ref))
         /\ at' = at + 1
         /\ pkc' = pkc + (IF (inH = 0) # (inR = 0) THEN 1 ELSE 0)
         /\ wdc' = wdc + (IF inH # inR THEN 1 ELSE 0)
         /\ inH' = inH - One(Text(hyp), at + 1) + One(Text(hyp), at + k + 1)
         /\ inR' = inR - One(Text(ref), at + 1) + One(Text(ref), at + k + 1)
         /\ UNCHANGED <<hyp, ref, k, lam>>
Next == Choose \/ Slide
Spec == Init /\ [][Next]_vars

Inside == at >= 0 => /\ inH = CountIn(Text(hyp), at + 1, at + k)
                     /\ inR = CountIn(Text(ref), at + 1, at + k)
Done == at >= 0 /\ at + k >= Units(Text(ref))
Counted ==
    Done => LET wd == WdParts(hyp, ref, k, lam)
                pk == PkParts(hyp, ref, k)
            IN  /\ wdc = wd.n
                /\ (~lam => pkc = pk.n /\ (at > 0 => at = pk.d /\ at = wd.d))
                /\ (lam => at + 1 = wd.d)
Value(p) == Share(p).v
Laws ==
    Done => LET pk == PkParts(hyp, ref, k)
                wd == WdParts(hyp, ref, k, lam)
            IN  /\ pk.n <= pk.d /\ wd.n <= wd.d
                /\ (~lam => QLe(Value(pk), Value(wd)))
                /\ (hyp = ref => pk.n = 0 /\ wd.n = 0)
                /\ PkParts(ref, hyp, k) = pk /\ WdParts(ref, hyp, k, lam) = wd
                /\ QLe(QZero, Value(wd)) /\ QLe(Value(wd), QOne)
(* read backwards both texts score the same *)
Backwards(bs) == [i \in DOMAIN bs |-> bs[Len(bs) + 1 - i]]
Mirrored ==
    Done => /\ PkParts(Backwards(hyp), Backwards(ref), k) = PkParts(hyp, ref, k)
            /\ WdParts(Backwards(hyp), Backwards(ref), k, lam) = WdParts(hyp, ref, k, lam)
(* with the correction every boundary is inside k windows, so a single
   additional boundary costs k windows wherever it is *)
EvenWeight ==
    (Done /\ lam) =>
        LET extra == {p \in DOMAIN hyp : hyp[p] # ref[p]}
        IN  Cardinality(extra) = 1 => wdc = k
(* the window size: at least two, monotone in the rounding *)
Sizes ==
    Done => LET m == MassesOfString(ref)
            IN  /\ \A r \in {"round", "floor", "ceil", "half_up", "plus3", "zero", "negative"} :
                      WindowSize(m, r) >= 2
                /\ WindowSize(m, "floor") <= WindowSize(m, "round")
                /\ WindowSize(m, "round") <= WindowSize(m, "half_up")
                /\ WindowSize(m, "half_up") <= WindowSize(m, "ceil")
                /\ WindowSize(m, "zero") = 2
                /\ WindowSize(m, "identity") <= (IF Units(ref) < 4 THEN 2 ELSE Units(ref) \div 2)
=============================================================================
