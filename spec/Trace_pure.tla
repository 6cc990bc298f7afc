----------------------------- MODULE Trace_pure -----------------------------
(***************************************************************************)
(* Validates recorded sessions of stateless operations: every event has to *)
(* be a behaviour of the specification.  s is the session, l the next      *)
(* event; a rejected event makes l negative.                               *)
(***************************************************************************)
EXTENDS Judge, Json, IOUtils, TLC

Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES s, l
vars == <<s, l>>
Init == s \in 1..Len(Trace) /\ l = 1
Next == /\ l > 0
        /\ l <= Len(Trace[s].ev)
        /\ l' = (IF OpOK(Trace[s].ev[l]) THEN l + 1 ELSE -l)
        /\ UNCHANGED s
Accepted == l > 0
=============================================================================
