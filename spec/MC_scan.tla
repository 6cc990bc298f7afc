------------------------------ MODULE MC_scan ------------------------------
(***************************************************************************)
(* The scanner as a machine: it reads an id, then what tells the length of *)
(* the value, skips the value and starts again.  The environment supplies  *)
(* all inputs of at most N bytes made of some ids, sizes and fillers, and  *)
(* ends them anywhere.  The extents the machine finds have to be those of  *)
(* the definition in Scan; every input it ends with is handed to the       *)
(* implementation.                                                         *)
(***************************************************************************)
EXTENDS Scan, Json, TLC

CONSTANT N

Ids == {<<x>> : x \in {0, 1, 5, 9, 10, 13, 14, 15, 16, 31, 77}} \cup {<<248, 0>>, <<248, 255>>, <<255, 255, 255, 255, 255, 255, 255, 255, 7>>}
Sizes == {<<x>> : x \in 0..4} \cup {<<248, 0>>, <<252, 1, 0, 0, 0, 0>>, <<255, 255, 255, 255, 255, 255, 255, 255, 7>>}
Heads == {0, 247, 248, 250, 255}           \* first byte of the value of ids 10 and 14
Broken == {<<255, 255, 255, 255, 255, 255, 255, 255, 8>>, <<249, 1>>, <<248>>}

VARIABLES inp, ph, off, cur, xs
vars == <<inp, ph, off, cur, xs>>
Init == inp = <<>> /\ ph = "id" /\ off = 0 /\ cur = [id |-> WZero, h |-> 0, n |-> 0] /\ xs = <<>>
Fits(x) == Len(inp) + Len(x) <= N \/ (Len(x) > 4 /\ Len(inp) < N)
Id == /\ ph = "id"
      /\ \E x \in Ids : /\ Fits(x) /\ inp' = inp \o x /\ UNCHANGED <<off, xs>>
                        /\ LET id == IDec(x, 1, Len(x) + 1).v IN
                           /\ cur' = [id |-> id, h |-> Len(x), n |-> IF Implicit(id) THEN ImplicitSize(IdN(id)) ELSE 0]
                           /\ ph' = (CASE IdN(id) = 15 -> "error" [] IsILIntId(id) -> "head" [] Implicit(id) -> "skip" [] OTHER -> "size")
Size == /\ ph = "size"
        /\ \E x \in Sizes : /\ Fits(x) /\ inp' = inp \o x /\ UNCHANGED <<off, xs>>
                            /\ cur' = [cur EXCEPT !.h = @ + Len(x), !.n = WToNat(IDec(x, 1, Len(x) + 1).v)]
                            /\ ph' = "skip"
\* the first byte of an integer tells its size
Head1 == /\ ph = "head"
         /\ \E x \in Heads : LET n == IF x < 248 THEN 1 ELSE x - 246 IN
              /\ cur' = [cur EXCEPT !.n = n] /\ UNCHANGED <<off, xs>>
              /\ IF Len(inp) + n <= N
                 THEN inp' = inp \o <<x>> \o [i \in 1..(n - 1) |-> 255] /\ ph' = "found"
                 ELSE \E m \in {0, 1} : m < n - 1 /\ Fits(<<x>>) /\ inp' = inp \o <<x>> \o (IF Len(inp) + 1 + m <= N THEN [i \in 1..m |-> 0] ELSE <<>>) /\ ph' = "error"
Skip == /\ ph = "skip"
        /\ UNCHANGED <<off, xs, cur>>
        /\ \/ cur.n <= N - Len(inp) /\ inp' = inp \o [i \in 1..cur.n |-> (22 * i) % 256] /\ ph' = "found"
           \/ \E m \in {0, 1, cur.n - 1} : m >= 0 /\ m < cur.n /\ (m = 0 \/ m <= N - Len(inp))
                                           /\ inp' = inp \o [i \in 1..m |-> 16] /\ ph' = "error"
Found == /\ ph = "found"
         /\ xs' = Append(xs, ExtN(cur.id, off, cur.h, Len(inp) - off - cur.h))
         /\ off' = Len(inp) /\ ph' = "id" /\ UNCHANGED <<inp, cur>>
Break == /\ ph \in {"id", "size"} /\ \E x \in Broken : Fits(x) /\ inp' = inp \o x
         /\ ph' = "error" /\ UNCHANGED <<off, xs, cur>>
Next == Id \/ Size \/ Head1 \/ Skip \/ Found \/ Break

Defined == LET r == ScanFrom(inp, 0, 100) IN r.x = xs /\ r.p = off
Covers == \A i \in 1..Len(xs) : xs[i].off = (IF i = 1 THEN WZero ELSE XEnd(xs[i - 1]))
Inv == (ph \in {"id", "error", "size"} => Defined) /\ Covers
Say(o) == PrintT("VEC " \o ToJson(o))
m == Len(xs)
Other == WNat(3)
Emit == ph \in {"id", "error", "size", "head"} =>
          /\ Say([op |-> "scan", b |-> inp, m |-> m + 1, want |-> <<>>])
          /\ (m > 0 /\ ph = "id") =>
               /\ Say([op |-> "scan", b |-> inp, m |-> m, want |-> [i \in 1..m |-> xs[i].id]])
               /\ Say([op |-> "scan", b |-> inp, m |-> m, want |-> [i \in 1..m |-> IF i = m THEN Other ELSE xs[i].id]])
=============================================================================
