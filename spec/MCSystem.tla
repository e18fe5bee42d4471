------------------------------ MODULE MCSystem ------------------------------
(***************************************************************************)
(* The whole: datasets are made, copied, merged, written, loaded, changed, *)
(* and in between given to metrics, agreement coefficients and window      *)
(* sizes (C29).  What these return must follow from what the dataset holds *)
(* at that time.  The invariants relate the results to each other across   *)
(* the ways in which a dataset can have come about.                        *)
(***************************************************************************)
EXTENDS MCDatasets

SystemStarts ==
    {<<>>, <<<<"i", <<<<"c", SegA>>, <<"d", SegB>>>>>>>>,
     <<<<"i", <<<<"d", SegB>>, <<"c", SegB>>>>>>, <<"j", <<<<"c", SegA>>, <<"d", SegA>>>>>>>>,
     <<<<"j", <<<<"e", SegA>>>>>>>>}

DefaultOptions == [nt |-> -1, w |-> <<>>, om |-> "d", rp |-> "d", k |-> -1, rnd |-> "d", lam |-> "d", perm |-> "d"]

Computable(d) == d.f = "mass" /\ \A t \in OncePairs(d) : Len(Coding(d, t[1], t[2])) = Len(Coding(d, t[1], t[3]))
Value(fn, d, t) == Score(fn, Coding(d, t[1], t[2]), Coding(d, t[1], t[3]), DefaultOptions).v

(* every ordered pair of coders of every item with its value *)
Results(fn, d) == [t \in Ordered(d) |-> Value(fn, d, t)]
SameResults(d, e) ==
    \A fn \in {"B", "pk"} :
        LET x == Results(fn, d)
            y == Results(fn, e)
        IN  DOMAIN x = DOMAIN y /\ \A t \in DOMAIN x : QEq(x[t], y[t])

Arg(st, d) == AsArgument(st, d)
Live == {d \in DOMAIN s.ds : Computable(Arg(s, d))}

CopiesScoreTheSame ==
    \A d \in Live :
        SameResults(Arg(s, d), Arg(StoreFresh(s, "copied", Content(s, d), Meta(s, d)), "copied"))
LoadedScoreTheSame ==
    \A d \in Live : SameResults(Arg(s, d), Arg(LoadJson(s, "loaded", JsonFile(s, d)), "loaded"))

(* merged datasets have the comparisons of both and, for items that both
   have, those between their coders *)
MergedScores ==
    \A d, e \in Live :
        (d # e /\ ~Clash(s.ds[d].items, s.ds[e].items)) =>
            LET m == Arg(MergeInto(s, d, e), d)
                x == Ordered(Arg(s, d))
                y == Ordered(Arg(s, e))
                z == CrossPairs(Arg(s, d), Arg(s, e))
            IN  /\ Ordered(m) = x \cup y \cup z \cup {Flip(t) : t \in z}
                /\ x \cap y = {}
                /\ Cardinality(OncePairs(m)) * 2 = Cardinality(Ordered(m))

(* pooling over separate items adds up numerators and denominators *)
PooledAdds ==
    \A d, e \in Live :
        (d # e /\ DOMAIN s.ds[d].items \cap DOMAIN s.ds[e].items = {}) =>
            LET SumOf(x) == LET c == Comparisons(x, "B", 2, DefaultWeights)
                            IN  <<QSum([k \in DOMAIN c |-> c[k].num]), QSum([k \in DOMAIN c |-> c[k].den])>>
                m == SumOf(Arg(MergeInto(s, d, e), d))
                p == SumOf(Arg(s, d))
                q == SumOf(Arg(s, e))
            IN  QEq(m[1], QAdd(p[1], q[1])) /\ QEq(m[2], QAdd(p[2], q[2]))
=============================================================================
