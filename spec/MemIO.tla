------------------------------- MODULE MemIO -------------------------------
(***************************************************************************)
(* Cursors over memory: readers and the three kinds of writers.            *)
(***************************************************************************)
EXTENDS Words

NOf(op) == WToNat(op.n)
Least(a, b) == IF a < b THEN a ELSE b

\* n bytes (a natural) from position p (a word) of d followed by zeros
Virt(d, p, n) == LET o == IF WLess(p, WNat(Len(d))) THEN WToNat(p) ELSE Len(d) IN
  [i \in 1..n |-> IF o + i <= Len(d) THEN d[o + i] ELSE 0]

\* ---- readers: data d never changes, o is the offset
MrCan(d, o, n) == IF n = 0 THEN "ok"
                  ELSE IF o = Len(d) THEN "eod"
                  ELSE IF n > Len(d) - o THEN "read" ELSE "ok"
MrStep(d, o, op) ==
  LET n == IF op.op = "read" THEN 1 ELSE NOf(op)
      c == MrCan(d, o, n) IN
  CASE op.op = "seek" -> [res |-> "ok", b |-> <<>>, off |-> Least(n, Len(d))]
    [] op.op = "can" -> [res |-> c, b |-> <<>>, off |-> o]
    [] OTHER -> [res |-> c,
                 b |-> IF c = "ok" /\ op.op \in {"read", "all"} THEN SubSeq(d, o + 1, o + n) ELSE <<>>,
                 off |-> IF c = "ok" THEN o + n ELSE o]
MrView(d, r) == [res |-> r.res, b |-> r.b, off |-> r.off, len |-> Len(d),
                 av |-> Len(d) - r.off, empty |-> (d = <<>>), data |-> d]

\* ---- writers: [d, o, ro]; kind "vec", "bvec" (borrowed vector), "arr" (fixed array)
Overlay(d, o, b) ==
  [i \in 1..(IF o + Len(b) > Len(d) THEN o + Len(b) ELSE Len(d)) |->
     IF i > o /\ i <= o + Len(b) THEN b[i - o] ELSE IF i <= Len(d) THEN d[i] ELSE 0]
MwInit(s) == [d |-> s.init, o |-> Least(s.off, Len(s.init)), ro |-> FALSE]
MwStep(kind, st, op) ==
  CASE op.op = "seek" -> [st |-> [st EXCEPT !.o = Least(NOf(op), Len(st.d))], res |-> "ok"]
    [] op.op = "ro" -> [st |-> IF kind = "arr" THEN st ELSE [st EXCEPT !.ro = op.v], res |-> "ok"]
    [] OTHER ->
         IF \/ st.ro
            \/ kind = "arr" /\ Len(op.b) > Len(st.d) - st.o
         THEN [st |-> st, res |-> "write"]
         ELSE [st |-> [st EXCEPT !.d = Overlay(st.d, st.o, op.b), !.o = st.o + Len(op.b)],
               res |-> "ok"]
\* the extra counter each kind offers
MwX(s, st) == CASE s.kind = "vec" -> 0
                [] s.kind = "bvec" -> LET a == Least(s.off, Len(s.init)) IN
                                      IF st.o > a THEN st.o - a ELSE 0
                [] OTHER -> Len(st.d) - st.o
MwView(s, r) == [res |-> r.res, data |-> r.st.d, off |-> r.st.o, ro |-> r.st.ro, x |-> MwX(s, r.st)]
=============================================================================
