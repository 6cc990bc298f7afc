----------------------------- MODULE MC_adapter -----------------------------
(***************************************************************************)
(* The adapters over standard streams as step machines: each request is a  *)
(* loop of calls of the underlying stream, which may transfer any part of  *)
(* what is asked for, be interrupted, reach its end or fail.  All outcomes *)
(* of up to MaxCalls underlying calls are explored; the machine has to     *)
(* agree with the request-level specification in StdIO, and every finished *)
(* behaviour is printed as a schedule for the real adapters.               *)
(***************************************************************************)
EXTENDS StdIO, Json, TLC

CONSTANTS SIDE,          \* "rr" reading, "ww" writing
          MaxCalls, LEN

\* the requests, one after another: 0 a single byte call, n > 0 a block of n bytes
Plans == {<<0, 2, 1>>, <<3>>, <<2, 0>>, <<1, 3>>, <<4>>, <<0, 0, 0>>}
Data == [j \in 1..LEN |-> 20 + j]

VARIABLES plan, room,    \* bytes the stream can give or take
          fails,         \* after them it fails (TRUE) or transfers nothing (FALSE)
          i, got,        \* current request and how much of it is done
          pos,           \* bytes transferred by the stream so far
          out,           \* results of the finished requests
          pat, dead
vars == <<plan, room, fails, i, got, pos, out, pat, dead>>

Size(j) == IF plan[j] = 0 THEN 1 ELSE plan[j]
Init == /\ plan \in Plans /\ room \in 0..LEN /\ fails \in BOOLEAN
        /\ i = 1 /\ got = 0 /\ pos = 0 /\ out = <<>> /\ pat = <<>> /\ dead = FALSE
Running == ~dead /\ i <= Len(plan)

Interrupted == /\ pat' = Append(pat, 0)
               /\ UNCHANGED <<i, got, pos, out, dead>>
Transfer(k) ==
  LET m == Least(Least(k, Size(i) - got), room - pos) IN
  /\ m > 0
  /\ pat' = Append(pat, k)
  /\ pos' = pos + m
  /\ IF got + m = Size(i)
     THEN i' = i + 1 /\ got' = 0 /\ out' = Append(out, "ok")
     ELSE i' = i /\ got' = got + m /\ out' = out
  /\ UNCHANGED dead
Stopped(k) ==            \* the stream ended or failed
  /\ pos = room
  /\ pat' = Append(pat, k)
  /\ out' = Append(out, "err")
  /\ dead' = TRUE
  /\ UNCHANGED <<i, got, pos>>
Next == /\ Running /\ Len(pat) < MaxCalls
        /\ UNCHANGED <<plan, room, fails>>
        /\ \/ Interrupted
           \/ \E k \in {1, 2, 9} : Transfer(k) \/ Stopped(k)

(* ------------------------------------------- the request-level behaviour -- *)
OpOf(j) == IF SIDE = "rr" THEN (IF plan[j] = 0 THEN [op |-> "read"] ELSE [op |-> "all", n |-> WNat(plan[j])])
           ELSE LET o == FoldLeft(LAMBDA a, q : a + q, 0, [q \in 1..(j - 1) |-> Size(q)]) IN
                [op |-> IF plan[j] = 0 THEN "write" ELSE "wall", b |-> [q \in 1..Size(j) |-> 20 + o + q]]
Sess == IF SIDE = "rr"
        THEN [su |-> "rr", init |-> IF fails THEN Data ELSE SubSeq(Data, 1, room),
              fault |-> IF fails THEN room ELSE room + 1]
        ELSE [su |-> "ww", cap |-> room, zero |-> ~fails]
Start(j) == FoldLeft(LAMBDA a, q : a + q, 0, [q \in 1..(j - 1) |-> Size(q)])
Held(n) == [q \in 1..n |-> 20 + q]
\* Each finished request ended as StdIO says, and has moved the right bytes.
Agrees == \A j \in 1..Len(out) :
  IF SIDE = "rr"
  THEN /\ (out[j] = "ok") = RrOK([Sess EXCEPT !.init = Data, !.fault = room], Start(j), OpOf(j))
       /\ out[j] = "ok" => RrBytes([init |-> Data], Start(j), OpOf(j)) = SubSeq(Data, Start(j) + 1, Start(j) + Size(j))
  ELSE WwNext(Sess, Held(Start(j)), OpOf(j), out[j] = "ok",
              Held(IF out[j] = "ok" THEN Start(j) + Size(j) ELSE pos))
\* Nothing is reported done that is not, nothing is transferred twice or lost.
Exact == /\ pos <= room
         /\ ~dead => pos = Start(i) + got
         /\ dead => i <= Len(plan) /\ pos = room /\ pos < Start(i) + Size(i)
Inv == Agrees /\ Exact
\* With enough calls every request ends.
Ends == (~Running) \/ Len(pat) < MaxCalls \/ (\E j \in 1..Len(pat) : pat[j] = 0) \/ Start(Len(plan) + 1) > MaxCalls

X(j) == IF SIDE = "rr"
        THEN (IF out[j] = "ok" THEN [res |-> "ok", b |-> SubSeq(Data, Start(j) + 1, Start(j) + Size(j))] ELSE [res |-> "!ok", b |-> <<>>])
        ELSE (IF out[j] = "ok" THEN [res |-> "ok", data |-> Held(Start(j) + Size(j))]
              ELSE [res |-> "!ok"])
Emit == Running \/ PrintT("VEC " \o ToJson(
          [pat |-> pat \o <<9>>, ops |-> [j \in 1..Len(out) |-> [x |-> X(j)] @@ OpOf(j)]] @@ Sess))
=============================================================================
