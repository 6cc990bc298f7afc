------------------------------- MODULE MC_io -------------------------------
(***************************************************************************)
(* Every history of at most K operations of small memory readers, memory   *)
(* writers, limited readers and seekable streams (SUITE).  The properties  *)
(* are checked on the model, and every complete history is printed with    *)
(* the results the model prescribes.  With K = 0 there is no bound on the  *)
(* length: TLC visits every state once (VIEW), and every transition is     *)
(* printed as the history that leads to it.                                *)
(***************************************************************************)
EXTENDS Limited, StdIO, Json, FiniteSets, TLC

CONSTANTS SUITE, K, SMALL

D(n) == [i \in 1..n |-> 10 + i]
N(n) == WNat(n)
Huge == {WOnes, [WZero EXCEPT ![1] = 128]}       \* 2^64-1 and 2^63
Far == [WZero EXCEPT ![4] = 1]                    \* 2^32
OpN(o, S) == {[op |-> o, n |-> x] : x \in S}
OpB(o, S) == {[op |-> o, b |-> x] : x \in S}
Op0(o) == [op |-> o]

Cfgs ==
  CASE SUITE = "mr" -> {[su |-> "mr", init |-> D(n)] : n \in IF SMALL THEN {0, 2} ELSE 0..3}
    [] SUITE = "mw" -> {[su |-> "mw", kind |-> k, init |-> D(n), off |-> o] :
                          k \in {"vec", "bvec", "arr"}, n \in IF SMALL THEN {0, 2} ELSE 0..3, o \in 0..3}
    [] SUITE = "lim" -> {[su |-> "lim", kind |-> k, init |-> D(3), zeros |-> WZero, fault |-> N(f), lim |-> N(l)] :
                          k \in {"one", "src"}, f \in IF SMALL THEN {1, 8} ELSE {0, 1, 2, 8}, l \in {0, 2, 3, 5}}
                     \cup IF K = 0 THEN {} ELSE {[su |-> "lim", kind |-> "src", init |-> D(3), zeros |-> Far, fault |-> WOnes, lim |-> l] :
                          l \in IF SMALL THEN {Far} ELSE {Far, WAdd(Far, N(2)), WAdd(Far, N(3)), WAdd(Far, N(4))}}
    [] OTHER -> {[su |-> "seek", kind |-> k, init |-> D(n), zeros |-> WZero] :
                     k \in {"cur", "chunk", "fault"} \cup (IF SMALL THEN {} ELSE {"file"}), n \in {0, 2, 3}}
                \cup IF K = 0 THEN {} ELSE {[su |-> "seek", kind |-> "far", init |-> D(2), zeros |-> z] : z \in {Far, [WZero EXCEPT ![1] = 127]}}
CInit(c) == CASE SUITE = "mr" -> 0 [] SUITE = "mw" -> MwInit(c) [] SUITE = "lim" -> LimInit(c)
              [] OTHER -> SkInit(c)

Bs == IF K = 0 THEN {<<>>, <<7>>, <<7, 8>>} ELSE {<<>>, <<7>>, <<8, 9>>, <<1, 2, 3, 4>>}
Ops(c, s) ==
  CASE SUITE = "mr" ->
         {Op0("read")} \cup OpN("all", {N(0), N(1), N(2), N(4)}) \cup OpN("skip", {N(0), N(2), WOnes})
         \cup OpN("skip64", {N(1), N(3)} \cup Huge) \cup OpN("seek", {N(0), N(1), N(2), WOnes})
         \cup OpN("can", {N(0), N(1), WOnes})
    [] SUITE = "mw" ->
         OpB("write", {<<IF K = 0 THEN 7 ELSE 5>>}) \cup OpB("wall", Bs) \cup OpB("dyn", IF K = 0 THEN {<<7>>} ELSE {<<6>>, <<8, 9>>})
         \cup OpN("seek", {N(0), N(1), N(3), WOnes})
         \cup {[op |-> "ro", v |-> x] : x \in BOOLEAN}
    [] SUITE = "lim" ->
         {Op0("read"), Op0("query"), Op0("end")}
         \cup OpN("all", {N(0), N(2), N(4)}) \cup OpN("skip", {N(1), N(3), WOnes})
         \cup OpN("skip64", {N(0), N(2), WOnes} \cup (IF c.zeros = WZero THEN {} ELSE {Far, WAdd(Far, N(1))}))
         \cup OpN("can", {N(2), WOnes} \cup (IF c.zeros = WZero THEN {} ELSE {Far}))
         \cup (IF Len(s.rem) < 3 THEN OpN("push", {N(1), N(2), N(4)}) ELSE {})
         \cup (IF Len(s.rem) > 1 THEN {Op0("pop")} ELSE {})
    [] OTHER ->
         {Op0(q) : q \in Queries} \cup {Op0("read")}
         \cup OpN("all", {N(0), N(2), N(4)}) \cup OpN("skip", {N(0), N(1), N(3), WOnes})
         \cup OpN("skip64", {N(2)} \cup Huge) \cup OpN("jump", {N(0), N(1), N(5)} \cup (IF c.kind = "file" THEN {} ELSE {WOnes}))
         \cup (IF c.zeros = WZero THEN {} ELSE OpN("skip64", {Far, WAdd(Far, N(1)), WAdd(c.zeros, N(2))}) \cup OpN("jump", {WAdd(Far, N(1)), WAdd(c.zeros, N(2))}))
         \cup (IF c.zeros # WZero THEN {} ELSE OpB("wall", IF K = 0 THEN {<<7>>} ELSE {<<7>>, <<8, 9, 6>>}) \cup OpB("write", {<<IF K = 0 THEN 7 ELSE 5>>}))
         \cup (IF c.kind = "fault" THEN {[op |-> "arm", what |-> w, v |-> TRUE] : w \in {"seek", "end", "start", "read", "write"}} ELSE {})

\* What the model prescribes for a seekable stream (it may leave things open)
SkStep(s, op) ==
  LET n == IF op.op = "read" THEN N(1) ELSE IF op.op \in {"all", "skip", "skip64"} THEN op.n ELSE WZero
      k == SkSkip(s, n)
      r(st, x) == {[st |-> st, x |-> x, stop |-> FALSE]}
      same == [pos |-> s.pos, data |-> s.d] IN
  CASE op.op \in Queries ->
         IF SkLost(s) THEN {[st |-> s, x |-> [data |-> s.d], stop |-> TRUE]}
         ELSE IF SkNoSeek(s) THEN r(s, same) ELSE r(s, [res |-> "ok", rv |-> SkQuery(s, op)] @@ same)
    [] op.op = "jump" -> r([s EXCEPT !.pos = op.n], [pos |-> op.n, data |-> s.d])
    [] op.op = "arm" -> r([s EXCEPT !.f = @ \cup {op.what}], same)
    [] op.op \in SkWrites ->
         IF ~WLess(s.pos, N(100)) THEN {}
         ELSE IF "write" \in s.f THEN r(s, [res |-> "!ok"] @@ same)
         ELSE LET t == [s EXCEPT !.pos = WAdd(s.pos, N(Len(op.b))), !.d = Overlay(s.d, WToNat(s.pos), op.b)]
              IN  r(t, [res |-> "ok", pos |-> t.pos, data |-> t.d])
    [] op.op \in {"read", "all"} ->
         IF n = WZero THEN r(s, [res |-> "ok", rb |-> <<>>] @@ same)
         ELSE IF k = "ok" /\ "read" \notin s.f
         THEN LET p == WAdd(s.pos, n) IN
              r([s EXCEPT !.pos = p],
                [res |-> "ok", pos |-> p, data |-> s.d,
                 rb |-> Virt(s.d, s.pos, WToNat(n))])
         ELSE {[st |-> s, x |-> [res |-> "!ok", rb |-> <<>>, data |-> s.d], stop |-> TRUE]}
    [] OTHER ->
         IF SkNoSeek(s) THEN {[st |-> s, x |-> [data |-> s.d], stop |-> TRUE]}
         ELSE IF k = "ok" THEN LET p == WAdd(s.pos, n) IN r([s EXCEPT !.pos = p], [res |-> "ok", pos |-> p, data |-> s.d])
         ELSE r(s, (IF k = "beyond" THEN [res |-> "!ok"] @@ same ELSE [res |-> k] @@ same))

\* The prescribed steps: [st, x, stop]
Steps(c, s, op) ==
  CASE SUITE = "mr" -> LET r == MrStep(c.init, s, op) IN {[st |-> r.off, x |-> MrView(c.init, r), stop |-> FALSE]}
    [] SUITE = "mw" -> LET r == MwStep(c.kind, s, op) IN {[st |-> r.st, x |-> MwView(c, r), stop |-> FALSE]}
    [] SUITE = "lim" ->
         LET R == LimStep(c, s, op, {})  r == CHOOSE r \in R : TRUE IN
         IF r.res \in {"ok", "read"} THEN {[st |-> r.st, x |-> LimView(r), stop |-> FALSE]}
         ELSE {[st |-> r.st, x |-> [res |-> "!ok", b |-> <<>>, av |-> LTop(r.st), empty |-> (LTop(r.st) = WZero)], stop |-> TRUE]}
    [] OTHER -> SkStep(s, op)

VARIABLES cfg, st, ops, stop
vars == <<cfg, st, ops, stop>>
Init == cfg \in Cfgs /\ st = CInit(cfg) /\ ops = <<>> /\ stop = FALSE
Emit(o) == PrintT("VEC " \o ToJson([ops |-> o] @@ cfg))
\* without a bound on histories there is one on how far data may grow
Small(o) == K > 0 \/ SUITE \in {"mr", "lim"} \/ o.op \notin {"write", "wall", "dyn"} \/ Len(st.d) < (IF SMALL THEN 3 ELSE 5)
Next == /\ ~stop /\ (K = 0 \/ Len(ops) < K)
        /\ UNCHANGED cfg
        /\ \E op \in {o \in Ops(cfg, st) : Small(o)} : \E r \in Steps(cfg, st, op) :
             LET o == Append(ops, [x |-> r.x] @@ op) IN
             /\ st' = r.st /\ stop' = r.stop /\ ops' = o
             /\ IF K = 0 \/ Len(o) = K \/ r.stop THEN Emit(o) ELSE TRUE
View == IF K = 0 THEN <<cfg, st, stop>> ELSE vars

(* ------------------------------------------------------- the properties -- *)
Inv ==
  CASE SUITE = "mr" -> st \in 0..Len(cfg.init)
    [] SUITE = "mw" -> st.o \in 0..Len(st.d) /\ Len(st.d) >= Len(cfg.init)
                       /\ (cfg.kind = "arr" => Len(st.d) = Len(cfg.init) /\ ~st.ro)
    [] SUITE = "lim" -> /\ WLeq(st.pos, cfg.lim)
                        /\ ~stop => WAdd(st.rem[1], st.pos) = cfg.lim
    [] OTHER -> Len(st.d) >= Len(cfg.init)
Done == ops'[Len(ops')]
Changed(a, b) == {i \in 1..Len(a) : a[i] # b[i]}
StepOK ==
  CASE SUITE = "mr" ->                                   \* all or nothing
         Done.op \in {"read", "all", "skip", "skip64"} =>
           IF Done.x.res = "ok" THEN st' = st + (IF Done.op = "read" THEN 1 ELSE WToNat(Done.n)) ELSE st' = st
    [] SUITE = "mw" ->
         /\ Len(st'.d) >= Len(st.d)
         /\ Done.op \in {"write", "wall", "dyn"} =>
              IF Done.x.res = "ok"
              THEN /\ Changed(st.d, st'.d) \subseteq (st.o + 1)..(st.o + Len(Done.b))
                   /\ SubSeq(st'.d, st.o + 1, st.o + Len(Done.b)) = Done.b
                   /\ st'.o = st.o + Len(Done.b) /\ ~st.ro
              ELSE st' = st
         /\ Done.op \in {"seek", "ro"} => st'.d = st.d
    [] SUITE = "lim" -> WLeq(st.pos, st'.pos) /\ (Len(st'.rem) = Len(st.rem) =>
           \A i \in 1..Len(st.rem) : /\ WLeq(st'.rem[i], st.rem[i])
                                     /\ WSub(st.rem[i], st'.rem[i]) = (IF stop' THEN WZero ELSE WSub(st'.pos, st.pos)))
    [] OTHER -> (Done.op \in Queries => st' = st) /\ (Done.op \in {"read", "all", "skip", "skip64"} => st'.d = st.d)
Good == [][StepOK]_vars
=============================================================================
