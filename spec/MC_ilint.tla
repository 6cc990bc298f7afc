----------------------------- MODULE MC_ilint ------------------------------
(***************************************************************************)
(* Every word of a small word space (all bases/lengths given by the cfg),  *)
(* one word per state.  The properties are stated over plain integers so   *)
(* that they do not depend on the digit arithmetic they check.             *)
(***************************************************************************)
EXTENDS ILInt, TLC

RECURSIVE Pow(_, _)
Pow(b, n) == IF n = 0 THEN 1 ELSE b * Pow(b, n - 1)
Top == Pow(WB, WN) - 1
NatOf(w) == FoldLeft(LAMBDA a, d : a * WB + d, 0, w)

VARIABLE v                      \* a natural number 0..Top
Init == v = 0
\* a binary tree over 0..Top, so that TLC's workers share the work
Next == v' \in {2 * v + 1, 2 * v + 2} /\ v' <= Top
W == WNat(v)
E == IEnc(W)

TypeOK == IsWord(W) /\ NatOf(W) = v
\* minimal, size-exact
Layout ==
  /\ Len(E) = ISize(W)
  /\ IF v < WB - WN THEN E = <<v>>
     ELSE LET n == Len(E) - 1 IN
          /\ E[1] = WB - WN + n - 1
          /\ NatOf(SubSeq(E, 2, Len(E))) = v - (WB - WN)
          /\ v - (WB - WN) < Pow(WB, n)
          /\ n > 1 => v - (WB - WN) >= Pow(WB, n - 1)
\* lossless and exact, whatever follows, and no prefix is accepted
Lossless ==
  /\ \A x \in {0, WB - WN, WB - 1} : \A k \in 0..2 :
       LET r == IDec(E \o [i \in 1..k |-> x], 1, Len(E) + k + 1)
       IN  r.ok /\ r.v = W /\ r.p = Len(E) + 1
  /\ \A k \in 0..(Len(E) - 1) : ~IDec(SubSeq(E, 1, k), 1, k + 1).ok
\* every body: exact value or overflow
Bodies == \A n \in 1..WN :
  LET d == [i \in 1..n |-> W[WN - n + i]]
      r == IDecBody(d)
      x == NatOf(d) + (WB - WN)
  IN  IF x > Top THEN ~r.ok /\ r.why = "overflow" ELSE r.ok /\ NatOf(r.v) = x
\* signed mapping over integers
SInt(w) == IF NatOf(w) > Top \div 2 THEN NatOf(w) - Top - 1 ELSE NatOf(w)
Signed ==
  LET x == SInt(W) IN
  /\ NatOf(ISign(W)) = (IF x >= 0 THEN 2 * x ELSE -2 * x - 1)
  /\ IUnsign(ISign(W)) = W
  /\ ISign(IUnsign(W)) = W
  /\ SInt(IUnsign(W)) = (IF v % 2 = 0 THEN v \div 2 ELSE -((v + 1) \div 2))
Arith ==
  LET u == (v * 7 + 3) % (Top + 1) IN
  /\ NatOf(WAdd(W, WNat(u))) = (v + u) % (Top + 1)
  /\ WAddOvf(W, WNat(u)) = (v + u > Top)
  /\ NatOf(WSub(W, WNat(u))) = (v - u) % (Top + 1)
  /\ WLess(W, WNat(u)) = (v < u)
  /\ WToNat(W) = v
Inv == TypeOK /\ Layout /\ Lossless /\ Bodies /\ Signed /\ Arith
=============================================================================
