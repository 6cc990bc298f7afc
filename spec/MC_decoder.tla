----------------------------- MODULE MC_decoder -----------------------------
(***************************************************************************)
(* The decoding machine in an environment that supplies all inputs of at   *)
(* most N bytes made of the pieces of a family (FAM), ending anywhere.     *)
(* Every finished run is printed as an input for the real decoder.         *)
(***************************************************************************)
EXTENDS Decoder, Json

CONSTANTS FAM, N

One(S) == {<<x>> : x \in S}
Long(S) == {<<248, x>> : x \in S}
\* what the environment offers as id, size, count, number
IdPieces ==
  CASE FAM = "scalar" -> One(0..20) \cup One({23, 24, 25, 26}) \cup Long({0, 7}) \cup {<<255, 0, 0, 0, 0, 0, 0, 0, 0>>, <<255, 255, 255, 255, 255, 255, 255, 255, 8>>}
    [] FAM = "into"   -> One({100, 101, 1}) \cup {<<248, 0>>}
    [] FAM = "fixed"  -> One((0..14) \cup {19, 23, 24})
    [] FAM = "box"    -> One({0, 3, 17, 21, 22, 30, 31}) \cup {<<248, 0>>}
    [] FAM = "deep"   -> One({1, 22})
    [] FAM = "arr"    -> One({0, 10, 20, 21, 25})
    [] FAM = "dict"   -> One({0, 30, 31})
    [] OTHER          -> One({1, 10, 14, 16, 22, 33}) \cup Long({5})
SzPieces ==
  CASE FAM = "scalar" -> One({0, 1, 2, 3, 4, 5, 6, 16}) \cup {<<248, 8>>, <<251, 32, 0, 0, 0>>, <<251, 31, 255, 255, 8>>, <<255, 255, 255, 255, 255, 255, 255, 255, 7>>}
    [] FAM = "fixed" -> One({0, 1, 2, 3, 4, 5, 15, 16, 17})
    [] FAM = "into" -> One((0..(N - 2)) \cup {8, 16}) \cup {<<248, 0>>}
    [] FAM = "deep" -> One(1..N)
    [] FAM = "dict" -> One(0..N)
    [] OTHER -> One(0..(N - 2)) \cup {<<248, 0>>}
CntPieces ==
  CASE FAM = "scalar" -> One({0, 1, 2, 3, 247}) \cup {<<249, 1, 0>>, <<255, 255, 255, 255, 255, 255, 255, 255, 7>>}
    [] OTHER -> One(0..3) \cup {<<248, 0>>}
NumPieces ==
  CASE FAM = "scalar" -> One({0, 1, 127, 247}) \cup Long({0, 255}) \cup {<<249, 1, 0>>, <<255, 255, 255, 255, 255, 255, 255, 255, 7>>,
                          <<255, 255, 255, 255, 255, 255, 255, 255, 8>>, <<252, 0, 0, 0, 0, 1>>}
    [] OTHER -> One({5}) \cup Long({1})
KeyIds == One({17, 16}) \cup (IF FAM = "scalar" THEN {<<248, 0>>} ELSE {})
KeySizes == One(0..2)
Pieces(f) == CASE f = "id" -> IdPieces [] f = "sz" -> SzPieces [] f = "cnt" -> CntPieces
               [] f = "k0" -> KeyIds [] f = "k1" -> KeySizes [] OTHER -> NumPieces
Blocks(f) ==
  CASE f.f = "k2" -> (IF f.n = 1 THEN {<<97>>, <<98>>, <<128>>} ELSE {[i \in 1..f.n |-> 97]})
    [] f.k = "bool" -> {<<0>>, <<1>>, <<2>>}
    [] f.k = "str" /\ f.n > 0 -> {[i \in 1..f.n |-> 120], [i \in 1..f.n |-> IF i = f.n THEN 195 ELSE 120]}
                                 \cup (IF f.n > 1 THEN {[i \in 1..f.n |-> IF i = 1 THEN 195 ELSE IF i = 2 THEN 169 ELSE 0]} ELSE {})
    [] OTHER -> {[i \in 1..f.n |-> (37 * i) % 256]}
Fits(x) == Len(inp) + Len(x) <= N \/ (FAM = "into" /\ Len(x) \in {8, 16})
\* a block too long for the budget can only be cut
Cuts(n) == {c \in {0, 1, n - 1} : c >= 0 /\ c < n /\ Len(inp) + c <= N}

\* instances to decode into: one of every kind with id 100, holding something
Old(k) ==
  Tag(k, WNat(100),
      CASE k = "bool" -> <<1>> [] k = "str" -> <<111, 108, 100, 101, 114>> [] k \in FixedKinds -> [i \in 1..FixedSize(k) |-> 170 + i]
        [] k = "range" -> <<1, 2>> [] k \in BlobKinds \cup {"bdec"} -> <<1, 2, 3, 4, 5, 6, 7>> [] OTHER -> <<>>,
      IF k \in {"ilint", "silint", "range"} THEN <<WNat(7)>> ELSE IF k \in {"ilarr", "oid"} THEN <<WNat(7), WNat(300), WZero>> ELSE <<>>,
      IF k \in {"arr", "seq", "env", "dict"} THEN <<T0("null", WZero)>> ELSE <<>>,
      IF k = "bdec" THEN <<<<1, 2, 3, 4>>>> ELSE IF k = "dict" THEN <<<<111>>>> ELSE IF k = "sdict" THEN <<<<111>>, <<112>>>> ELSE <<>>)
Earlier == {<<>>, <<<<100, 3, 2, 0>>>>, <<<<100, 2, 1, 255>>, <<100, 9, 2, 17, 1, 97, 1, 1, 17, 1, 98>>>>}
Regs == CASE FAM = "into" -> {[strict |-> FALSE, base |-> "std", x |-> <<<<WNat(100), k>>>>] : k \in AllKinds \ {"bytes", "bint"}}
          [] FAM = "reg" -> {StdReg(TRUE), StdReg(FALSE), [strict |-> FALSE, base |-> "empty", x |-> <<>>],
                             [strict |-> TRUE, base |-> "std", x |-> <<<<WNat(33), "seq">>, <<WNat(1), "none">>>>],
                             [strict |-> FALSE, base |-> "std", x |-> <<<<WNat(16), "ilarr">>, <<WNat(253), "str">>>>]}
          [] OTHER -> {StdReg(FALSE)}
Init == \E R \in Regs : DInit(R)
TooBig == 40
Next ==
  \/ WantsNum /\ \E x \in Pieces(Top.f) :
       Fits(x) /\ (GotNum(x) \/ \E c \in Cuts(Len(x)) : GotEnd(x, c))
  \/ /\ WantsBlock
     /\ IF Top.n > TooBig THEN (IF Top.n > Room THEN GotBlock(<<>>) ELSE GotEnd(<<>>, 0))
        ELSE \E x \in Blocks(Top) :
               \/ (Fits(x) \/ Top.n > Room) /\ GotBlock(x)
               \/ Top.n <= Room /\ \E c \in Cuts(Len(x)) : GotEnd(x, c)
  \/ Step

Sfxs == {<<>>, <<0>>, <<255, 22, 1>>}
Inv == /\ Contained /\ Reserved1 /\ Shallow
       /\ st \in {"ok", "fail"} => \A x \in Sfxs : Denotes(x)
       /\ st = "eof" => Denotes(<<>>)
X(b) == LET r == Dec(b, reg)
            all == r.ok /\ r.p = Len(b) + 1 IN
        [op |-> "dec", b |-> b, R |-> reg,
         x |-> [out |-> <<[ok |-> r.ok, t |-> IF r.ok THEN r.t ELSE NoTag, n |-> IF r.ok THEN r.p - 1 ELSE 0]>>,
                fb |-> all] @@ (IF r.ok THEN [re |-> Ser(r.t)] ELSE [fb |-> FALSE])]
Into(b, pre) ==
  LET k == KindOf(reg, WNat(100))
      r == DecInto(k, WNat(100), b, reg)
      x == [out |-> <<[ok |-> r.ok, t |-> IF r.ok THEN r.t ELSE NoTag, n |-> IF r.ok THEN r.p - 1 ELSE 0, same |-> TRUE,
                       id |-> WNat(100), id0 |-> WNat(100), by |-> IF r.ok THEN Ser(r.t) ELSE <<>>]>>]
  IN [op |-> "into", b |-> b, R |-> reg, t |-> Old(k), pre |-> pre,
      x |-> IF r.why = "id" THEN [out |-> x.out, errs |-> <<"type">>] ELSE x]
Emit == \/ st = "run"
        \/ /\ FAM = "into"
           /\ \A pre \in Earlier : PrintT("VEC " \o ToJson(Into(inp, pre)))
        \/ /\ FAM # "into"
           /\ PrintT("VEC " \o ToJson(X(inp)))
           /\ \/ st = "eof"
              \/ PrintT("VEC " \o ToJson(X(inp \o (IF Len(inp) % 2 = 0 THEN <<0>> ELSE <<255, 22, 1>>))))
=============================================================================
