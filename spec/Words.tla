------------------------------- MODULE Words -------------------------------
(***************************************************************************)
(* Unsigned machine words as big-endian tuples of WN digits in base WB.    *)
(* The implementation's 64-bit integers are WB = 256, WN = 8; scaled-down  *)
(* constants make the word space small enough to enumerate completely.     *)
(* All operators are total on words and on naturals below 2^31.            *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt

CONSTANTS WB, WN

Words    == [1..WN -> 0..(WB - 1)]
IsWord(w) == DOMAIN w = 1..WN /\ \A i \in 1..WN : w[i] \in 0..(WB - 1)
WZero    == [i \in 1..WN |-> 0]
WOnes    == [i \in 1..WN |-> WB - 1]

RECURSIVE WDivK(_, _)
WDivK(n, k) == IF k = 0 \/ n = 0 THEN n ELSE WDivK(n \div WB, k - 1)
\* The word of a natural number (modulo WB^WN).
WNat(n) == IF n < WB THEN [WZero EXCEPT ![WN] = n]
           ELSE [i \in 1..WN |-> WDivK(n, WN - i) % WB]

\* The natural number of a word, saturated at WCap.
WCap == 2147483647
WToNat(w) == FoldLeft(LAMBDA acc, d : IF acc > (WCap - d) \div WB THEN WCap
                                      ELSE acc * WB + d, 0, w)

WLess(a, b) == \E i \in 1..WN : /\ a[i] < b[i]
                                /\ \A j \in 1..(i - 1) : a[j] = b[j]
WLeq(a, b)  == a = b \/ WLess(a, b)

\* Sum with the carry out as an extra leading digit.
RECURSIVE WAddFrom(_, _, _, _)
WAddFrom(a, b, i, c) ==
  IF i = 0 THEN <<c>>
  ELSE LET x == a[i] + b[i] + c
       IN  Append(WAddFrom(a, b, i - 1, x \div WB), x % WB)
WAddX(a, b) == WAddFrom(a, b, WN, 0)
WAdd(a, b)  == SubSeq(WAddX(a, b), 2, WN + 1)
WAddOvf(a, b) == WAddX(a, b)[1] # 0

RECURSIVE WSubFrom(_, _, _, _)
WSubFrom(a, b, i, c) ==
  IF i = 0 THEN <<>>
  ELSE LET x == a[i] - b[i] - c
       IN  Append(WSubFrom(a, b, i - 1, IF x < 0 THEN 1 ELSE 0), x % WB)
WSub(a, b) == WSubFrom(a, b, WN, 0)

WNeg(a)  == WSub(WZero, a)
WIsNeg(a) == a[1] >= WB \div 2          \* two's complement sign (WB even)

\* Pads a digit string of at most WN digits to a word.
WPad(d) == [i \in 1..WN |-> IF i <= WN - Len(d) THEN 0 ELSE d[i - (WN - Len(d))]]
\* Number of significant digits, at least one.
WSig(w) == LET nz == {i \in 1..WN : w[i] # 0}
           IN  IF nz = {} THEN 1 ELSE WN + 1 - (CHOOSE i \in nz : \A j \in nz : i <= j)
=============================================================================
