------------------------------ MODULE Limited ------------------------------
(***************************************************************************)
(* Limited readers stacked on a source of Len(init) bytes followed by      *)
(* zeros (a word) zero bytes, which fails for good from position fault on. *)
(* State: rem, the remaining count of each level (innermost last), and     *)
(* pos, the bytes consumed from the source; all words.                     *)
(* LimStep gives the allowed outcomes of an operation.                     *)
(***************************************************************************)
EXTENDS MemIO

LimInit(s) == [rem |-> <<s.lim>>, pos |-> WZero]
LTop(st) == st.rem[Len(st.rem)]
LimN(st, op) == CASE op.op = "read" -> WNat(1)
                  [] op.op = "end" -> LTop(st)
                  [] op.op \in {"query", "pop"} -> WZero
                  [] OTHER -> op.n
LimSrc(s) == WAdd(WNat(Len(s.init)), s.zeros)
WLeast(a, b) == IF WLess(a, b) THEN a ELSE b
\* the source can deliver n more bytes
SrcOK(s, st, n) == LET r == WLeast(LimSrc(s), s.fault) IN
                   n = WZero \/ (WLeq(st.pos, r) /\ WLeq(n, WSub(r, st.pos)))
LimDec(st, n) == [rem |-> [i \in 1..Len(st.rem) |-> WSub(st.rem[i], n)], pos |-> WAdd(st.pos, n)]
\* The set of [st, res, b]; Ps are positions the source may be left at by a
\* bulk operation that failed on the way.
LimStep(s, st, op, Ps) ==
  LET n == LimN(st, op)
      none(x, r) == {[st |-> x, res |-> r, b |-> <<>>]} IN
  CASE op.op = "push" -> none([st EXCEPT !.rem = Append(@, n)], "ok")
    [] op.op = "pop" -> none([st EXCEPT !.rem = SubSeq(@, 1, Len(@) - 1)], "ok")
    [] op.op = "query" -> none(st, "ok")
    [] op.op = "can" -> none(st, IF WLess(LTop(st), n) THEN "read" ELSE "ok")
    [] OTHER ->
         IF \E i \in 1..Len(st.rem) : WLess(st.rem[i], n) THEN none(st, "read")
         ELSE IF SrcOK(s, st, n)
         THEN {[st |-> LimDec(st, n), res |-> "ok",
                b |-> IF op.op \in {"read", "all"} THEN Virt(s.init, st.pos, WToNat(n)) ELSE <<>>]}
         \* the source failed, possibly after giving some of the bytes
         ELSE {[st |-> [st EXCEPT !.pos = p], res |-> r, b |-> <<>>] :
                 p \in {st.pos} \cup {p \in Ps : WLeq(st.pos, p) /\ WLeq(p, LimSrc(s))},
                 r \in {"eod", "corrupted"}}
LimView(x) == [res |-> x.res, b |-> x.b, av |-> LTop(x.st), empty |-> (LTop(x.st) = WZero), pos |-> x.st.pos]
=============================================================================
