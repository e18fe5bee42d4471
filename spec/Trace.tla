------------------------------- MODULE Trace -------------------------------
(***************************************************************************)
(* Trace validation.  Each line of the file named by the environment       *)
(* variable TRACE is a recorded session.  TLC follows every session with   *)
(* the transition function of Session, evaluates the clauses each event is *)
(* to be judged by, and prints the broken ones.  Every event is consumed,  *)
(* so the number of states is the number of events plus sessions.          *)
(***************************************************************************)
EXTENDS Session, TLC, IOUtils, Json

Sessions == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES sid, pos, st
vars == <<sid, pos, st>>

Init == sid \in DOMAIN Sessions /\ pos = 0 /\ st = Fresh

Next ==
    /\ pos < Len(Sessions[sid].ev)
    /\ LET e == Sessions[sid].ev[pos + 1]
           broken == Broken(st, e)
       IN  /\ IF broken = {} THEN TRUE ELSE PrintT(<<"BROKEN", sid, pos + 1, broken>>)
           /\ st' = IF Enabled(st, e) THEN After(st, e) ELSE st
    /\ pos' = pos + 1
    /\ UNCHANGED sid

Spec == Init /\ [][Next]_vars
=============================================================================
