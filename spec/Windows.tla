------------------------------ MODULE Windows ------------------------------
(***************************************************************************)
(* Window size, Pk and WindowDiff.  hyp and ref are boundary strings.      *)
(* Units are 1..n; unit i and unit i+1 are divided iff position i of the   *)
(* string holds a boundary.                                                *)
(***************************************************************************)
EXTENDS Segmentation, Num

(* rounding functions, applied to the non-negative fraction p/q *)
RoundTo(name, p, q) ==
    LET fl == p \div q
        rem == p % q
    IN  CASE name = "round" -> IF 2 * rem > q \/ (2 * rem = q /\ fl % 2 = 1) THEN fl + 1 ELSE fl
          [] name \in {"floor", "int", "identity"} -> fl
          [] name = "ceil" -> IF rem > 0 THEN fl + 1 ELSE fl
          [] name = "half_up" -> IF 2 * rem >= q THEN fl + 1 ELSE fl
          [] name = "plus3" -> fl + 3
          [] name = "zero" -> 0
          [] name = "negative" -> 0 - fl

(* the window size for segments of the given masses *)
WindowSize(masses, rounding) ==
    LET r == RoundTo(rounding, SumSeq(masses), 2 * Len(masses))
    IN  IF r > 1 THEN r ELSE 2

(* number of boundaries before each unit: RunningCount(bs)[i] for unit i *)
RunningCount(bs) ==
    FoldLeft(LAMBDA acc, p : Append(acc, acc[Len(acc)] + (IF p = {} THEN 0 ELSE 1)), <<0>>, bs)

Between(cnt, i, j) == cnt[j] - cnt[i]      \* boundaries between units i and j

WindowsOf(n, k) == 1..(IF n > k THEN n - k ELSE 0)

PkCount(hyp, ref, k) ==
    LET h == RunningCount(hyp)
        r == RunningCount(ref)
    IN  Cardinality({i \in WindowsOf(Len(h), k) :
            (Between(h, i, i + k) = 0) # (Between(r, i, i + k) = 0)})

WdCount(hyp, ref, k) ==
    LET h == RunningCount(hyp)
        r == RunningCount(ref)
    IN  Cardinality({i \in WindowsOf(Len(h), k) : Between(h, i, i + k) # Between(r, i, i + k)})

(* n units extended by k phantom units at each end, each end a segment *)
Extend(bs, k) ==
    LET inside == [i \in 1..(k - 1) |-> {}]
    IN  inside \o <<{1}>> \o bs \o <<{1}>> \o inside

PkParts(hyp, ref, k) ==
    [n |-> PkCount(hyp, ref, k), d |-> Cardinality(WindowsOf(Units(ref), k))]
WdParts(hyp, ref, k, lamprier) ==
    IF lamprier
    THEN LET h == Extend(hyp, k)
             r == Extend(ref, k)
         IN  [n |-> WdCount(h, r, k), d |-> Cardinality(WindowsOf(Units(r), k)) + 1]
    ELSE [n |-> WdCount(hyp, ref, k), d |-> Cardinality(WindowsOf(Units(ref), k))]

(* the quotient, 0 when there is no window *)
Share(p) == [n |-> QInt(p.n), d |-> QInt(p.d),
             v |-> IF p.d = 0 THEN QZero ELSE Q(p.n, p.d)]
=============================================================================
