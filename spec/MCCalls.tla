------------------------------ MODULE MCCalls ------------------------------
(***************************************************************************)
(* Histories of functional calls (C27).  The caller owns argument objects, *)
(* grouped as the arguments of one call; group g is in version ver[g] and  *)
(* the caller may change it in place.  The library owns its default        *)
(* options and the set of names already brought in.  A call merges the     *)
(* options given into the defaults, reads the arguments and returns a      *)
(* value; the caller may afterwards do what it likes to the returned       *)
(* value (taint).  What the call returns is a function of the call and of  *)
(* the version of its arguments and the caller's arithmetic settings of    *)
(* that moment (the precision of Decimals, which are the caller's and      *)
(* which no call changes): Memoryless, SettingsKept.                       *)
(* Call c uses group GroupOf[c] and gives option OptionOf[c] (0: none).    *)
(* Histories are printed and played on the library by the harness.         *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS GroupOf, OptionOf, Versions, D, Changes, Taints, Settings, Emit
VARIABLES ver, defaults, loaded, hist, results, changes, arith, end
vars == <<ver, defaults, loaded, hist, results, changes, arith, end>>

G4 == <<1, 1, 2, 2>>
O4 == <<0, 1, 0, 2>>
Calls == DOMAIN GroupOf
Groups == {GroupOf[c] : c \in Calls}
Documented == [opt |-> 0]

Init == /\ ver = [g \in Groups |-> 1] /\ defaults = Documented /\ loaded = {}
        /\ hist = <<>> /\ results = <<>> /\ changes = 0 /\ arith = 1 /\ end = FALSE

Merged(c) == IF OptionOf[c] = 0 THEN defaults ELSE [defaults EXCEPT !.opt = OptionOf[c]]
Result(c) == <<c, ver[GroupOf[c]], Merged(c), arith>>
NumberOfCalls == Len(results)

Call(c, t) ==
    /\ NumberOfCalls < D
    /\ results' = Append(results, Result(c))
    /\ hist' = Append(hist, <<"call", c, IF t THEN 1 ELSE 0>>)
    /\ loaded' = loaded \cup {c}
    /\ UNCHANGED <<ver, defaults, changes, arith, end>>
(* only arguments already used are worth changing *)
Change(g) ==
    /\ changes < Changes /\ 0 < NumberOfCalls /\ NumberOfCalls < D
    /\ hist[Len(hist)][1] # "change"
    /\ \E c \in loaded : GroupOf[c] = g
    /\ ver' = [ver EXCEPT ![g] = (@ % Versions) + 1]
    /\ hist' = Append(hist, <<"change", g, 0>>) /\ changes' = changes + 1
    /\ UNCHANGED <<defaults, loaded, results, arith, end>>
(* the caller's precision: usual (1) or coarse (2) *)
SetArith ==
    /\ Cardinality({k \in DOMAIN hist : hist[k][1] = "arith"}) < Settings
    /\ NumberOfCalls < D
    /\ IF hist = <<>> THEN TRUE ELSE hist[Len(hist)][1] # "arith"
    /\ arith' = 3 - arith
    /\ hist' = Append(hist, <<"arith", arith', 0>>)
    /\ UNCHANGED <<ver, defaults, loaded, results, changes, end>>
Finish == /\ NumberOfCalls = D /\ ~end /\ end' = TRUE
          /\ IF Emit THEN PrintT(<<"BEHAVIOUR", ToJson(hist)>>) ELSE TRUE
          /\ UNCHANGED <<ver, defaults, loaded, hist, results, changes, arith>>
Next == (\E c \in Calls, t \in Taints : Call(c, t)) \/ (\E g \in Groups : Change(g)) \/ SetArith \/ Finish
Spec == Init /\ [][Next]_vars

----------------------------------------------------------------------------
(* version of group g before the k-th entry of the history *)
VersionAt(g, k) ==
    LET n == Cardinality({j \in 1..(k - 1) : hist[j][1] = "change" /\ hist[j][2] = g})
    IN  (n % Versions) + 1
CallAt(k) == CHOOSE j \in DOMAIN hist : hist[j][1] = "call" /\
                Cardinality({i \in 1..j : hist[i][1] = "call"}) = k
ArithAt(k) == IF Cardinality({j \in 1..(k - 1) : hist[j][1] = "arith"}) % 2 = 0 THEN 1 ELSE 2
Memoryless ==
    \A k \in DOMAIN results :
        LET j == CallAt(k)
            c == hist[j][2]
        IN  results[k] = <<c, VersionAt(GroupOf[c], j), [opt |-> OptionOf[c]], ArithAt(j)>>
DefaultsKept == defaults = Documented
ArgumentsKept ==
    [][\A g \in Groups : ver'[g] # ver[g] => hist'[Len(hist')] = <<"change", g, 0>>]_vars
SettingsKept ==
    [][arith' # arith => hist'[Len(hist')] = <<"arith", arith', 0>>]_vars
=============================================================================
