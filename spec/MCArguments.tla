---------------------------- MODULE MCArguments ----------------------------
(***************************************************************************)
(* How arguments are taken (C26, C28).  The caller puts a call together    *)
(* argument by argument - positional arguments, then the keywords          *)
(* hypothesis, reference and dataset, each a segmentation or a dataset -   *)
(* and then makes it.  The library consumes what was passed; a call is     *)
(* scored only if nothing is missing and nothing is left over.  All calls  *)
(* are printed for the harness to make, for every metric.                  *)
(***************************************************************************)
EXTENDS Library, TLC, Json
CONSTANTS Most, Emit
VARIABLES call, left, bound, stage
vars == <<call, left, bound, stage>>
Kinds == {"seg", "ds"}
Empty == [pos |-> <<>>, hyp |-> "", ref |-> "", dataset |-> ""]

Init == call = Empty /\ left = {} /\ bound = [h |-> "", r |-> "", d |-> ""] /\ stage = "positional"
Position(k) == /\ stage = "positional" /\ Len(call.pos) < Most
               /\ call' = [call EXCEPT !.pos = Append(@, k)] /\ UNCHANGED <<left, bound, stage>>
Keyword(field, k, from, to) ==
    /\ stage = from /\ stage' = to
    /\ call' = [call EXCEPT ![field] = k] /\ UNCHANGED <<left, bound>>
(* arguments still to be used, by name *)
Passed == {<<"p", k>> : k \in DOMAIN call.pos}
          \cup {<<n, 0>> : n \in {x \in {"hyp", "ref", "dataset"} : call[x] # ""}}
Make == /\ stage = "make" /\ stage' = "bind" /\ left' = Passed /\ UNCHANGED <<call, bound>>
        /\ IF Emit THEN PrintT(<<"BEHAVIOUR", ToJson(<<call>>)>>) ELSE TRUE
(* the library binds what it needs, from the left over arguments only *)
Take(pairs, names) ==
    /\ stage = "bind" /\ ~Emit /\ names \subseteq left
    /\ left' = left \ names /\ bound' = pairs /\ stage' = "bound" /\ UNCHANGED call
Bind == \/ Take([h |-> call.hyp, r |-> call.ref, d |-> ""], {<<"hyp", 0>>, <<"ref", 0>>})
        \/ Take([h |-> "", r |-> "", d |-> call.dataset], {<<"dataset", 0>>})
        \/ Len(call.pos) >= 2 /\ Take([h |-> call.pos[1], r |-> call.pos[2], d |-> ""], {<<"p", 1>>, <<"p", 2>>})
        \/ Len(call.pos) >= 1 /\ Take([h |-> "", r |-> "", d |-> call.pos[1]], {<<"p", 1>>})
Next == \/ \E k \in Kinds : Position(k)
        \/ \E k \in Kinds \cup {""} : Keyword("hyp", k, "positional", "hyp")
        \/ \E k \in Kinds \cup {""} : Keyword("ref", k, "hyp", "ref")
        \/ \E k \in Kinds \cup {""} : Keyword("dataset", k, "ref", "make")
        \/ Make \/ Bind
Spec == Init /\ [][Next]_vars

(* a binding that makes sense and leaves nothing over *)
Right == /\ stage = "bound" /\ left = {}
         /\ \/ bound.d = "ds" /\ bound.h = "" /\ bound.r = ""
            \/ bound.d = "" /\ bound.h # "" /\ bound.h = bound.r
Meaning == IF bound.d = "ds" THEN "ds" ELSE IF bound.h = "ds" THEN "ds2" ELSE "pair"
(* what Dispatch accepts can be bound without anything left over, and means that *)
Agreed == Right => Dispatch(call) = Meaning
Accepted == stage = "bind" =>
    ((Dispatch(call) # "rejected")
     = \E b \in {{<<"hyp", 0>>, <<"ref", 0>>}, {<<"dataset", 0>>}, {<<"p", 1>>, <<"p", 2>>}, {<<"p", 1>>}} :
          /\ b = left
          /\ LET At(x) == IF x[1] = "p" THEN call.pos[x[2]] ELSE call[x[1]]
             IN  IF Cardinality(b) = 2 THEN Cardinality({At(x) : x \in b}) = 1 ELSE \A x \in b : At(x) = "ds")
ShapesAgree == stage = "bind" => ((Dispatch(call) # "rejected") = ShapeOK(call))
SurplusRejected == stage = "bind" /\ SurplusKeyword(call) => Dispatch(call) = "rejected"
=============================================================================
