------------------------------- MODULE ILInt -------------------------------
(***************************************************************************)
(* The ILInt variable length integer.  With base 256 and 8 digits the      *)
(* first header byte is 248 = 0xF8.                                        *)
(***************************************************************************)
EXTENDS Words

ILBase == WB - WN
ILBaseW == WNat(ILBase)

IEnc(v) ==
  IF WLess(v, ILBaseW) THEN <<v[WN]>>
  ELSE LET d == WSub(v, ILBaseW)
           n == WSig(d)
       IN  <<ILBase + n - 1>> \o SubSeq(d, WN - n + 1, WN)

\* Reported size: computed by comparing with the class limits, not from IEnc.
\* The class with n body digits ends at WB^n - 1 + ILBase.
ClassMax(n) == LET m == [i \in 1..WN |-> IF i > WN - n THEN WB - 1 ELSE 0]
               IN  IF n = WN THEN WOnes ELSE WAdd(m, ILBaseW)
ISize(v) == IF WLess(v, ILBaseW) THEN 1
            ELSE 1 + (CHOOSE n \in 1..WN : /\ WLeq(v, ClassMax(n))
                                           /\ \A m \in 1..(n - 1) : ~WLeq(v, ClassMax(m)))

IHdrSize(h) == IF h < ILBase THEN 1 ELSE h - ILBase + 2

\* Body digits (without the header).
IDecBody(d) ==
  IF Len(d) = 0 \/ Len(d) > WN THEN [ok |-> FALSE, v |-> WZero, why |-> "format"]
  ELSE IF WAddOvf(WPad(d), ILBaseW) THEN [ok |-> FALSE, v |-> WZero, why |-> "overflow"]
  ELSE [ok |-> TRUE, v |-> WAdd(WPad(d), ILBaseW), why |-> ""]

\* Decodes at position p of s; bytes at e and after are out of reach.
\* The result p is the position after the integer.
IDec(s, p, e) ==
  IF p >= e THEN [ok |-> FALSE, v |-> WZero, p |-> p, why |-> "short"]
  ELSE LET n == IHdrSize(s[p])
       IN  IF n = 1 THEN [ok |-> TRUE, v |-> WNat(s[p]), p |-> p + 1, why |-> ""]
           ELSE IF p + n > e THEN [ok |-> FALSE, v |-> WZero, p |-> p, why |-> "short"]
           ELSE LET r == IDecBody(SubSeq(s, p + 1, p + n - 1))
                IN  [ok |-> r.ok, v |-> r.v, p |-> p + n, why |-> r.why]

\* Signed mapping: 0, -1, 1, -2, ... -> 0, 1, 2, 3, ...
ISign(x)   == IF WIsNeg(x) THEN WSub(WAdd(WNeg(x), WNeg(x)), WNat(1)) ELSE WAdd(x, x)
WHalf(w) == [i \in 1..WN |-> (w[i] + (IF i = 1 THEN 0 ELSE (w[i - 1] % 2) * WB)) \div 2]
IUnsign(w) == IF w[WN] % 2 = 0 THEN WHalf(w) ELSE WSub(WNeg(WHalf(w)), WNat(1))
=============================================================================
