------------------------------- MODULE MC_ext -------------------------------
(***************************************************************************)
(* Extents of 64-bit parts, mapped up through enclosing tags.  A state is  *)
(* an extent and the chain of parents it went through; every step maps it  *)
(* into one more parent.  What a mapping has to preserve is checked on     *)
(* each step, and each chain is handed to the implementation.              *)
(***************************************************************************)
EXTENDS Scan, Json, TLC

CONSTANTS K, SMALL

Hi(i, x) == [WZero EXCEPT ![i] = x]
W32 == Hi(4, 1)                                   \* 2^32
Vals == {WNat(0), WNat(1), WNat(5)} \cup (IF SMALL THEN {Hi(4, 1), Hi(1, 128)} ELSE {WNat(2147483647), WSub(W32, WNat(1)), W32, WAdd(W32, WNat(5)), Hi(1, 127), Hi(1, 128)})
Offs == {WNat(0), WNat(3), W32} \cup (IF SMALL THEN {} ELSE {WNat(255), WSub(W32, WNat(2)), Hi(1, 127)})
Hdrs == {WNat(0), WNat(1), WNat(10)} \cup (IF SMALL THEN {} ELSE {WNat(2), WNat(18)})
\* does the sum of three words fit in a word?
Fits3(a, b, c) == LET s == WAdd(a, b) IN WLeq(a, s) /\ WLeq(s, WAdd(s, c))
Xs == {x \in {Ext(WNat(77), o, h, v) : o \in Offs, h \in Hdrs, v \in Vals} : Fits3(x.off, x.hdr, x.val)}
\* parents: their value ends right where x does, before, or behind
Parents(x) ==
  {p \in {Ext(WOnes, o, h, v) : o \in Offs, h \in {WNat(2)},
            v \in {XEnd(x), WAdd(XEnd(x), WNat(1)), WAdd(XEnd(x), W32)} \cup (IF XEnd(x) = WZero THEN {} ELSE {WSub(XEnd(x), WNat(1)), WZero})} :
     Fits3(p.off, p.hdr, p.val)}

VARIABLES x0, x, par, out
vars == <<x0, x, par, out>>
Init == x0 \in Xs /\ x = x0 /\ par = <<>> /\ out = FALSE
Next == /\ ~out /\ Len(par) < K
        /\ \E p \in Parents(x) :
             /\ par' = Append(par, p) /\ x0' = x0
             /\ IF MapOK(x, p) THEN x' = MapX(x, p) /\ out' = FALSE ELSE UNCHANGED x /\ out' = TRUE
\* inside of the value of the last parent, everything but the place unchanged
Inv == /\ x.id = x0.id /\ x.hdr = x0.hdr /\ x.val = x0.val
       /\ ~out /\ par # <<>> =>
            LET p == par[Len(par)] IN
            /\ WLeq(WAdd(p.off, p.hdr), x.off) /\ WLeq(XEnd(x), XEnd(p)) /\ WLeq(x.off, XEnd(x))
            /\ MapAll(x0, par)[Len(par)] = x
       /\ out => Len(MapAll(x0, par)) = Len(par) - 1
Emit == PrintT("VEC " \o ToJson([op |-> "ext", b |-> <<1, 2, 3, 4, 5, 6, 7, 8, 9>>, x |-> x0, par |-> par]))
=============================================================================
