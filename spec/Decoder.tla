------------------------------ MODULE Decoder ------------------------------
(***************************************************************************)
(* Decoding as a push-down machine that reads its input piece by piece     *)
(* from an environment.  It keeps the ends of all open values (lim); every *)
(* read is checked against all of them.  It has no lookahead and no idea   *)
(* of how much input there is.                                             *)
(*   inp  the bytes consumed      stk  open constructs, innermost last     *)
(*   lim  ends of open values     st   "run", "ok", "fail", "eof"          *)
(*   res  the decoded tag         mem  bytes reserved on a claim           *)
(***************************************************************************)
EXTENDS Scan, TLC

VARIABLES inp, stk, lim, st, res, mem, reg
dvars == <<inp, stk, lim, st, res, mem, reg>>

Inf == 1000000000
MaxPrealloc == 1024
Elem == 16                        \* bytes per preallocated element

DInit(R) == /\ inp = <<>> /\ stk = <<[f |-> "id"]>> /\ lim = <<>> /\ st = "run"
            /\ res = NoTag /\ mem = 0 /\ reg = R
Top == stk[Len(stk)]
Below == SubSeq(stk, 1, Len(stk) - 1)
Running == st = "run"
Room == LET m(a, b) == IF a < b THEN a ELSE b IN
        FoldLeft(LAMBDA a, e : m(a, e - Len(inp)), Inf, lim)

Halt(s) == st' = s /\ UNCHANGED <<stk, lim, res>>
Keep(i, m) == inp' = i /\ mem' = m /\ UNCHANGED reg

(* Opening the value of a tag of kind k with id, n bytes from position p. *)
ValFrame(k, id, n) ==
  CASE k \in FixedKinds \cup BlobKinds \cup {"str", "bdec"} -> [f |-> "blk", k |-> k, id |-> id, n |-> n]
    [] k \in {"ilint", "silint"} -> [f |-> "int", k |-> k, id |-> id]
    [] k = "range" -> [f |-> "rng", id |-> id]
    [] k \in {"seq", "env"} -> [f |-> "els", k |-> k, id |-> id, left |-> -1, c |-> <<>>, s |-> <<>>, w |-> <<>>]
    [] OTHER -> [f |-> "cnt", k |-> k, id |-> id]
Open(id, n, p) ==
  LET k == KindOf(reg, id) IN
  IF k = "none" \/ (k \in FixedKinds /\ n # FixedSize(k)) \/ (k = "bdec" /\ n < 4) THEN Halt("fail")
  ELSE stk' = Append(Below, ValFrame(k, id, n)) /\ lim' = Append(lim, p + n) /\ UNCHANGED <<st, res>>

(* A complete tag t: its value is closed and it goes to what encloses it. *)
Deliver(t, p) ==
  IF ~IsILIntId(t.id) /\ p # lim[Len(lim)] THEN Halt("fail")
  ELSE /\ lim' = SubSeq(lim, 1, Len(lim) - 1)
       /\ IF Len(stk) = 1 THEN st' = "ok" /\ res' = t /\ stk' = <<>>
          ELSE LET u == Below[Len(Below)] IN
               /\ stk' = Append(SubSeq(Below, 1, Len(Below) - 1),
                                [u EXCEPT !.c = Append(@, t), !.left = IF @ < 0 THEN @ ELSE @ - 1])
               /\ UNCHANGED <<st, res>>
\* a complete string inside a dictionary
DeliverStr(b) ==
  LET u == Below[Len(Below)]
      v == [u EXCEPT !.s = Append(@, b), !.left = IF u.k = "sdict" THEN @ - 1 ELSE @] IN
  /\ stk' = SubSeq(Below, 1, Len(Below) - 1) \o <<v>> \o (IF u.k = "dict" THEN <<[f |-> "id"]>> ELSE <<>>)
  /\ UNCHANGED <<lim, st, res>>

T0(k, id) == Tag(k, id, <<>>, <<>>, <<>>, <<>>)
(* ---- a number x (bytes of one ILInt) arrives where one is expected *)
NumFrames == {"id", "sz", "int", "cnt", "rng", "k0", "k1"}
WantsNum == Running /\ (Top.f \in NumFrames \/ (Top.f = "els" /\ Top.k \in {"ilarr", "oid"} /\ Top.left > 0))
GotNum(x) ==
  LET p == Len(inp) + Len(x)
      r == IDecBody(Tail(x))
      v == IF Len(x) = 1 THEN WNat(x[1]) ELSE r.v
      ok == Len(x) = 1 \/ r.ok
      n == WToNat(v)
      f == Top IN
  IF Len(x) > Room
  THEN Keep(IF Room = 0 THEN inp ELSE Append(inp, x[1]), mem) /\ Halt("fail")
  ELSE IF ~ok THEN Keep(inp \o x, mem) /\ Halt("fail")
  ELSE
  CASE f.f = "id" ->
         /\ Keep(inp \o x, mem)
         /\ IF ~Implicit(v) THEN stk' = Append(Below, [f |-> "sz", id |-> v]) /\ UNCHANGED <<lim, st, res>>
            ELSE Open(v, ImplicitSize(n), p)
    [] f.f = "sz" ->
         LET k == KindOf(reg, f.id) IN
         /\ Keep(inp \o x, IF k \in BlobKinds \cup {"str", "bdec"} /\ n <= MaxTagSize THEN mem + n ELSE mem)
         /\ IF n > MaxTagSize THEN Halt("fail") ELSE Open(f.id, n, p)
    [] f.f = "int" ->
         Keep(inp \o x, mem) /\ Deliver([T0(f.k, f.id) EXCEPT !.w = <<IF f.k = "ilint" THEN v ELSE IUnsign(v)>>], p)
    [] f.f = "cnt" ->
         LET els(l) == [f |-> "els", k |-> f.k, id |-> f.id, left |-> l, c |-> <<>>, s |-> <<>>, w |-> <<>>]
             toomany == n > lim[Len(lim)] - p IN
         /\ Keep(inp \o x, IF toomany \/ f.k \in {"dict", "sdict"} THEN mem
                           ELSE mem + Elem * (IF n < MaxPrealloc THEN n ELSE MaxPrealloc))
         /\ IF toomany THEN Halt("fail")
            ELSE stk' = Append(Below, els(IF f.k = "sdict" THEN 2 * n ELSE n)) /\ UNCHANGED <<lim, st, res>>
    [] f.f = "rng" ->
         /\ Keep(inp \o x, mem)
         /\ stk' = Append(Below, [f |-> "blk", k |-> "range", id |-> f.id, n |-> 2, w |-> v])
         /\ UNCHANGED <<lim, st, res>>
    [] f.f = "k0" ->
         /\ Keep(inp \o x, mem)
         /\ IF v # WNat(17) THEN Halt("fail")
            ELSE stk' = Append(Below, [f |-> "k1"]) /\ UNCHANGED <<lim, st, res>>
    [] f.f = "k1" ->
         /\ Keep(inp \o x, IF n <= MaxTagSize THEN mem + n ELSE mem)
         /\ IF n > MaxTagSize THEN Halt("fail")
            ELSE stk' = Append(Below, [f |-> "k2", n |-> n]) /\ UNCHANGED <<lim, st, res>>
    [] OTHER ->      \* an element of a number array
         /\ Keep(inp \o x, mem)
         /\ stk' = Append(Below, [f EXCEPT !.w = Append(@, v), !.left = @ - 1])
         /\ UNCHANGED <<lim, st, res>>
(* ---- a block of bytes *)
WantsBlock == Running /\ Top.f \in {"blk", "k2"}
GotBlock(x) ==
  LET p == Len(inp) + Len(x)  f == Top IN
  IF f.n > Room THEN Keep(inp, mem) /\ Halt("fail")
  ELSE /\ Keep(inp \o x, mem)
       /\ IF f.f = "k2" THEN (IF Utf8OK(x) THEN DeliverStr(x) ELSE Halt("fail"))
          ELSE IF (f.k = "bool" /\ x[1] > 1) \/ (f.k = "str" /\ ~Utf8OK(x)) THEN Halt("fail")
          ELSE Deliver(CASE f.k = "bdec" -> [T0(f.k, f.id) EXCEPT !.s = <<SubSeq(x, 1, 4)>>, !.b = SubSeq(x, 5, Len(x))]
                         [] f.k = "range" -> [T0(f.k, f.id) EXCEPT !.w = <<f.w>>, !.b = x]
                         [] OTHER -> [T0(f.k, f.id) EXCEPT !.b = x], p)
(* ---- steps without input: the next element, or the end of a container *)
Silent == Running /\ Top.f = "els"
          /\ \/ Top.k \notin {"ilarr", "oid"}
             \/ Top.left = 0
Step ==
  LET f == Top  p == Len(inp) IN
  /\ Silent
  /\ UNCHANGED <<inp, mem, reg>>
  /\ IF f.left = 0 \/ (f.k \in {"seq", "env"} /\ p = lim[Len(lim)])
     THEN Deliver(Canon([T0(f.k, f.id) EXCEPT !.c = f.c, !.s = f.s, !.w = f.w]), p)
     ELSE /\ stk' = Append(stk, [f |-> IF f.k \in {"dict", "sdict"} THEN "k0" ELSE "id"])
          /\ UNCHANGED <<lim, st, res>>
(* ---- the input ends: c bytes of a piece x were still there *)
GotEnd(x, c) ==
  /\ c < Len(x) \/ Len(x) = 0
  /\ Keep(IF c <= Room THEN inp \o SubSeq(x, 1, c) ELSE inp, mem)
  /\ Halt("eof")

(* ------------------------------------------------------- the properties -- *)
\* Nothing beyond the end of an open value is ever consumed.
Contained == \A i \in 1..Len(lim) : Len(inp) <= lim[i]
\* The machine decodes what the wire format says.
Denotes(sfx) ==
  LET r == Dec(inp \o sfx, reg) IN
  CASE st = "ok" -> r.ok /\ r.t = res /\ r.p = Len(inp) + 1
    [] st = "fail" -> ~r.ok /\ Len(inp) <= r.p - 1
    [] st = "eof" -> ~Dec(inp, reg).ok
    [] OTHER -> TRUE
\* What is reserved is what is there, what was admitted for one value, or a constant per level.
\* (mem adds everything up; a value that does not fit fails before the next is read)
Reserved1 == mem <= 64 * Len(inp) + MaxTagSize + Elem * MaxPrealloc * (Len(stk) + 1)
\* Every open construct has cost input.
Shallow == Len(stk) <= 2 * Len(inp) + 1
=============================================================================
