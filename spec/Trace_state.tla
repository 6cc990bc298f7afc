---------------------------- MODULE Trace_state ----------------------------
(***************************************************************************)
(* Validates recorded sessions of the stateful parts against their         *)
(* specifications: objects (factories and tags), memory readers and        *)
(* writers, limited readers, wrapped and seekable streams, shared          *)
(* factories.  s session, l next event (negative once one was rejected),   *)
(* st the state the specification is in.                                   *)
(***************************************************************************)
EXTENDS Objects, Limited, StdIO, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)

StInit(S) ==
  CASE S.su = "obj" -> ObjInit
    [] S.su = "mr" -> 0
    [] S.su = "mw" -> MwInit(S)
    [] S.su = "lim" -> LimInit(S)
    [] S.su = "rr" -> 0
    [] S.su = "ww" -> <<>>
    [] S.su = "seek" -> SkInit(S)
    [] OTHER -> 0

\* e has (at least) the fields of r with the same values
Has(e, r) == \A x \in DOMAIN r : e[x] = r[x]

\* The states allowed after event e.
StStep(S, st, e) ==
  IF e.panic # "" THEN {} ELSE
  CASE S.su = "obj" -> ObjStep(st, e)
    [] S.su = "mr" -> LET r == MrStep(S.init, st, e) IN
                      IF Has(e, MrView(S.init, r)) THEN {r.off} ELSE {}
    [] S.su = "mw" ->
         IF e.op = "into" THEN (IF e.data = st.d THEN {st} ELSE {})
         ELSE LET r == MwStep(S.kind, st, e) IN
              IF Has(e, MwView(S, r)) THEN {r.st} ELSE {}
    [] S.su = "lim" -> {x.st : x \in {y \in LimStep(S, st, e, {e.pos}) : Has(e, LimView(y))}}
    [] S.su = "rr" ->
         IF st = -1 THEN {-1}
         ELSE IF RrOK(S, st, e) THEN (IF e.res = "ok" /\ e.b = RrBytes(S, st, e) THEN {st + RrN(e)} ELSE {})
         ELSE IF e.res # "ok" THEN {-1} ELSE {}
    [] S.su = "ww" -> IF WwNext(S, st, e, e.res = "ok", e.data) THEN {e.data} ELSE {}
    [] S.su = "seek" -> IF SkOK(st, e, e) THEN {SkNext(st, e, e)} ELSE {}
    [] S.su = "thr" ->
         LET b == S.jobs[e.me + 1][e.i + 1]
             r == Dec(b, S.R)
             c == FromBytes(Ser(r.t), S.R) IN
         IF e.out = [ok |-> r.ok, t |-> IF r.ok THEN r.t ELSE NoTag, n |-> IF r.ok THEN r.p - 1 ELSE 0,
                     by |-> IF r.ok THEN Ser(r.t) ELSE <<>>, cl |-> (r.ok => c.ok /\ Ser(c.t) = Ser(r.t))]
         THEN {st} ELSE {}
    [] OTHER -> {}

VARIABLES s, l, st
vars == <<s, l, st>>
Init == s \in 1..Len(Trace) /\ l = 1 /\ st = StInit(Trace[s])
Next == /\ l > 0
        /\ l <= Len(Trace[s].ev)
        /\ UNCHANGED s
        /\ LET N == StStep(Trace[s], st, Trace[s].ev[l]) IN
           IF N = {} THEN l' = -l /\ UNCHANGED st
           ELSE l' = l + 1 /\ st' \in N
Accepted == l > 0
=============================================================================
