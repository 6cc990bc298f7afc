------------------------------- MODULE StdIO -------------------------------
(***************************************************************************)
(* Wrapped standard readers and writers, and seekable streams.             *)
(***************************************************************************)
EXTENDS MemIO

\* ---- wrapped reader: pos, or -1 after a failure (then nothing is promised)
RrAvail(s) == Least(Len(s.init), s.fault)
RrN(op) == IF op.op = "read" THEN 1 ELSE NOf(op)
RrOK(s, pos, op) == RrN(op) = 0 \/ RrN(op) <= RrAvail(s) - pos
RrBytes(s, pos, op) == IF op.op \in {"read", "all"} THEN SubSeq(s.init, pos + 1, pos + RrN(op)) ELSE <<>>

\* ---- wrapped writer: what the sink holds
IsPfx(a, b) == Len(a) <= Len(b) /\ SubSeq(b, 1, Len(a)) = a
WwOK(s, held, op) == Len(op.b) = 0 \/ Len(held) + Len(op.b) <= s.cap
\* what the sink may hold after op
WwNext(s, held, op, ok, data) ==
  IF WwOK(s, held, op) THEN ok /\ data = held \o op.b
  ELSE /\ ~ok
       /\ IsPfx(held, data) /\ IsPfx(data, held \o op.b) /\ Len(data) <= s.cap

\* ---- seekable stream: [pos, d, z, f]; pos a word, d the data, z (a word) the zero
\* bytes behind it, f the kinds of calls that fail ("end": seeks from the end,
\* "start": seeks to a position, "cur": seeks from the current position)
SkInit(s) == [pos |-> WZero, d |-> s.init, z |-> s.zeros, f |-> {}]
SkLen(st) == WAdd(WNat(Len(st.d)), st.z)
SkNoSeek(st) == {"seek", "end", "start", "cur"} \cap st.f # {}
\* nor can it go back to where it was
SkLost(st) == "start" \in st.f
SkAv(st) == IF WLess(st.pos, SkLen(st)) THEN WSub(SkLen(st), st.pos) ELSE WZero
SkQuery(st, op) == CASE op.op = "len" -> SkLen(st)
                     [] op.op = "off" -> st.pos
                     [] op.op = "av" -> SkAv(st)
                     [] OTHER -> WNat(IF SkLen(st) = WZero THEN 1 ELSE 0)
Queries == {"len", "off", "av", "empty"}
SkWrites == {"write", "wall", "dyn"}
\* the result of skipping n (a word) from st
SkSkip(st, n) == IF n = WZero THEN "ok"
                 ELSE IF st.pos = SkLen(st) THEN "eod"
                 ELSE IF ~WLess(st.pos, SkLen(st)) THEN "beyond"
                 ELSE IF WLeq(n, SkAv(st)) THEN "ok" ELSE "read"
\* Whether an observed outcome [res, rb, rv, pos, data] is allowed
SkOK(st, op, e) ==
  LET same == e.pos = st.pos /\ e.data = st.d
      n == IF op.op = "read" THEN WNat(1) ELSE IF op.op \in {"all", "skip", "skip64"} THEN op.n ELSE WZero
      k == SkSkip(st, n) IN
  CASE op.op \in Queries ->
         \/ e.res = "ok" /\ same /\ e.rv = SkQuery(st, op)
         \/ e.res # "ok" /\ SkNoSeek(st) /\ e.data = st.d /\ (SkLost(st) \/ same)
    [] op.op = "jump" -> e.pos = op.n /\ e.data = st.d
    [] op.op = "arm" -> same
    [] op.op \in SkWrites ->
         IF op.b = <<>>      \* a stream may pad itself up to the position
         THEN e.res = "ok" /\ e.pos = st.pos /\ (e.data = st.d \/ e.data = Overlay(st.d, WToNat(st.pos), <<>>))
         ELSE IF "write" \in st.f \/ st.z # WZero THEN e.res # "ok" /\ same
         ELSE /\ e.res = "ok"
              /\ e.pos = WAdd(st.pos, WNat(Len(op.b)))
              /\ e.data = Overlay(st.d, WToNat(st.pos), op.b)
    [] op.op \in {"read", "all"} ->
         /\ e.data = st.d
         /\ IF n = WZero THEN e.res = "ok" /\ e.pos = st.pos /\ e.rb = <<>>
            ELSE IF k = "ok" /\ "read" \notin st.f
            THEN /\ e.res = "ok" /\ e.pos = WAdd(st.pos, n)
                 /\ e.rb = Virt(st.d, st.pos, WToNat(n))
            ELSE e.res # "ok"
    [] OTHER ->  \* skips
         /\ e.data = st.d
         /\ IF e.res = "ok" THEN k = "ok" /\ e.pos = WAdd(st.pos, n)
            ELSE /\ e.pos = st.pos \/ SkLost(st)
                 /\ IF SkNoSeek(st) THEN TRUE
                    ELSE k # "ok" /\ (k # "beyond" => e.res = k)
SkNext(st, op, e) ==
  IF op.op = "arm" THEN [st EXCEPT !.f = IF op.v THEN @ \cup {op.what} ELSE @ \ {op.what}]
  ELSE [st EXCEPT !.pos = e.pos, !.d = e.data]
=============================================================================
