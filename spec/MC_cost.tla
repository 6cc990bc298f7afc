------------------------------ MODULE MC_cost ------------------------------
(***************************************************************************)
(* Work and memory.  FAM "work": every chain of at most K containers       *)
(* around one leaf that counts how often it is asked; FAM "mem": every     *)
(* chain of at most K claimed headers (kind, size, count, with or without  *)
(* elements that are there before the next level), closed by a claiming    *)
(* leaf, with hardly any data behind.  A reference cost model (one visit   *)
(* per node and operation; one buffer of the claimed size for an admitted  *)
(* leaf) shows that the bounds of Judge can be met, with room; each chain  *)
(* is handed to the implementation, whose costs are judged by the bounds.  *)
(***************************************************************************)
EXTENDS Judge, Json, TLC

CONSTANTS FAM, K, SMALL

W(n) == WNat(n)
NoOwn == {"bytes", "bint"}   \* these types have no constructor with an id
WMax == W(MaxTagSize)
VARIABLES kinds, wide, levels, leaf
vars == <<kinds, wide, levels, leaf>>
NoLeaf == [k |-> "none", id |-> WZero, sz |-> WZero]
\* the ids used: the standard ones, or (wide = 1) an application's own
StdN(k) == CASE k = "key" -> 17 [] k = "raw" -> 77 [] OTHER -> CHOOSE n \in StdIds : StdKind(n) = k
IdOf(k) == IF wide = 1 /\ k \notin {"key", "raw"} /\ k \notin NoOwn THEN WNat(1000 + StdN(k)) ELSE WNat(StdN(k))
Reg == IF wide = 0 THEN StdReg(FALSE)
       ELSE [StdReg(FALSE) EXCEPT !.x = SetToSeq({<<WNat(1000 + n), StdKind(n)>> : n \in {m \in StdIds : m > 15 /\ StdKind(m) \notin NoOwn}})]
Level(k, sz, n, pre) == [k |-> k, id |-> IdOf(k), sz |-> sz, n |-> n, pre |-> pre]
Conts == {"seq", "arr", "dict"}
Claims == {W(0), W(3), W(1048576), W(MaxTagSize - 60), WMax, WAdd(WMax, W(1)), WOnes}
          \cup (IF SMALL THEN {} ELSE {W(100000), W(16777216), [WZero EXCEPT ![4] = 1], [WZero EXCEPT ![1] = 128]})
Sizes == {W(30), W(MaxTagSize - 20), WMax} \cup (IF SMALL THEN {} ELSE {W(1048576), WAdd(WMax, W(1))})
Counts(k) == IF k = "seq" THEN {WZero} ELSE {W(1), W(3), W(1048576), W(MaxTagSize - 60)} \cup (IF SMALL THEN {} ELSE {WZero, WMax, WOnes})
Pre(k) == CASE k = "seq" -> {<<>>, <<3, 9>>} [] k = "arr" -> {<<>>, <<3, 9>>}
            [] k = "dict" -> {<<>>, <<17, 1, 97>>, <<17, 1, 97, 0, 17, 1, 98>>} [] k = "sdict" -> {<<>>, <<17, 1, 97>>} [] OTHER -> {<<>>}
LeafKinds(k) == IF k \in {"", "seq", "arr"} THEN {"bytes", "str", "bint", "bdec", "raw"} ELSE IF k = "dict" THEN {"key", "bytes"} ELSE IF k = "sdict" THEN {"key"} ELSE {}
LastK == IF levels = <<>> THEN "" ELSE levels[Len(levels)].k
Init == kinds = <<>> /\ levels = <<>> /\ leaf = NoLeaf /\ wide \in (IF FAM = "work" THEN 0..2 ELSE 0..1)
Next ==
  \/ FAM = "work" /\ Len(kinds) < K /\ \E k \in Conts : kinds' = Append(kinds, k) /\ UNCHANGED <<wide, levels, leaf>>
  \/ FAM = "mem" /\ leaf = NoLeaf /\ Len(levels) < K /\ LastK \notin {"sdict", "ilarr", "oid"}
     /\ \E k \in Conts \cup {"sdict", "ilarr", "oid"} : \E sz \in Sizes : \E n \in Counts(k) : \E pre \in Pre(k) :
          levels' = Append(levels, Level(k, sz, n, pre)) /\ UNCHANGED <<kinds, wide, leaf>>
  \/ FAM = "mem" /\ leaf = NoLeaf
     /\ \E k \in (IF wide = 0 THEN LeafKinds(LastK) ELSE LeafKinds(LastK) \cap {"key", "str"}) : \E sz \in Claims : leaf' = [k |-> k, id |-> IdOf(k), sz |-> sz] /\ UNCHANGED <<kinds, wide, levels>>

Ev == [b |-> <<>>, zeros |-> 0, rest |-> <<1, 2>>, levels |-> levels, leaf |-> leaf, R |-> Reg]
Head1 == MemHead(Ev) \o <<1, 2>>
\* the reference costs
d == Len(kinds)
RefSize == d + 1                    \* leaf visits: once per operation
Adm == IF leaf.k = "none" \/ WToNat(leaf.sz) > MaxTagSize THEN 0 ELSE WToNat(leaf.sz)
RefKiB == (Adm \div 1024) + 1 + Len(levels) * 2
Inv == IF FAM = "work"
       THEN /\ RefSize <= WorkBound(d)
            /\ d <= 3 => TSize(Chain(kinds, wide, CountLeaf, d)) = ChainLen(kinds, wide, TSize(CountLeaf), d)
            /\ d <= 3 => Len(Ser(Chain(kinds, wide, CountLeaf, d))) = ChainLen(kinds, wide, TSize(CountLeaf), d)
       ELSE /\ RefKiB <= MemBoundKiB([Ev EXCEPT !.b = Head1])
            \* nothing that claims so much can be there
            /\ (WLeq(W(1000), leaf.sz) => ~Dec(Head1, Reg).ok)
Say(o) == PrintT("VEC " \o ToJson(o))
Emit == IF FAM = "work" THEN d = 0 \/ Say([op |-> "work", kinds |-> kinds, wide |-> wide, at |-> wide, R |-> StdReg(FALSE)])
        ELSE (levels = <<>> /\ leaf = NoLeaf) \/ Say([Ev EXCEPT !.b = Head1] @@ [op |-> "mem"])
=============================================================================
