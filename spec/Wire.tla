-------------------------------- MODULE Wire --------------------------------
(***************************************************************************)
(* The ILTags wire format as a denotation: serialized form (Ser), sizes    *)
(* (VSize, TSize) and decoding (DecTag).                                   *)
(*                                                                         *)
(* A tag is a record [k, id, b, w, c, s]:                                  *)
(*   k   kind (which implementation type), id  64-bit word,                *)
(*   b   raw bytes (integers and floats as big-endian bit patterns),       *)
(*   w   sequence of 64-bit words, c  sequence of child tags,              *)
(*   s   sequence of byte strings (dictionary keys/values, decimal scale). *)
(***************************************************************************)
EXTENDS ILInt, Utf8

Tag(k, id, b, w, c, s) == [k |-> k, id |-> id, b |-> b, w |-> w, c |-> c, s |-> s]
NoTag == Tag("none", WZero, <<>>, <<>>, <<>>, <<>>)

IdN(id) == WToNat(id)
Implicit(id) == IdN(id) <= 15
Reserved(id) == IdN(id) <= 31
IsILIntId(id) == IdN(id) \in {10, 14}
MaxTagSize == 536870912

\* kinds whose value is a fixed number of bytes kept in b
FixedKinds == {"null", "bool", "i8", "u8", "i16", "u16", "i32", "u32", "i64",
               "u64", "f32", "f64", "b128", "ver"}
FixedSize(k) == CASE k = "null" -> 0
                  [] k \in {"bool", "i8", "u8"} -> 1
                  [] k \in {"i16", "u16"} -> 2
                  [] k \in {"i32", "u32", "f32"} -> 4
                  [] k \in {"i64", "u64", "f64"} -> 8
                  [] OTHER -> 16
\* kinds whose value is an arbitrary byte string kept in b
BlobKinds == {"raw", "bytes", "bint", "pay"}
AllKinds == FixedKinds \cup BlobKinds \cup
  {"str", "bdec", "ilint", "silint", "ilarr", "oid", "range", "arr", "seq",
   "env", "dict", "sdict"}

\* nominal value size of implicit ids, as limit for decoding
ImplicitSize(n) ==
  CASE n \in {0, 15} -> 0
    [] n \in {1, 2, 3} -> 1
    [] n \in {4, 5} -> 2
    [] n \in {6, 7, 11} -> 4
    [] n \in {8, 9, 12} -> 8
    [] n \in {10, 14} -> 9
    [] OTHER -> 16

\* standard id -> kind
StdKind(n) ==
  CASE n = 0 -> "null" [] n = 1 -> "bool" [] n = 2 -> "i8" [] n = 3 -> "u8"
    [] n = 4 -> "i16" [] n = 5 -> "u16" [] n = 6 -> "i32" [] n = 7 -> "u32"
    [] n = 8 -> "i64" [] n = 9 -> "u64" [] n = 10 -> "ilint" [] n = 11 -> "f32"
    [] n = 12 -> "f64" [] n = 13 -> "b128" [] n = 14 -> "silint"
    [] n = 16 -> "bytes" [] n = 17 -> "str" [] n = 18 -> "bint" [] n = 19 -> "bdec"
    [] n = 20 -> "ilarr" [] n = 21 -> "arr" [] n = 22 -> "seq" [] n = 23 -> "range"
    [] n = 24 -> "ver" [] n = 25 -> "oid" [] n = 30 -> "dict" [] n = 31 -> "sdict"
    [] OTHER -> "none"
StdIds == (0..14) \cup (16..25) \cup {30, 31}

\* A registry: [strict, base, x] where base says whether the standard ids are
\* registered ("std") or nothing is ("empty"), and x is a sequence of <<id, kind>>
\* overriding that, latest last; kind "none" marks a removed creator.
StdReg(strict) == [strict |-> strict, base |-> "std", x |-> <<>>]
RECURSIVE RegScan(_, _, _)
RegScan(x, id, i) == IF i = 0 THEN "std" ELSE IF x[i][1] = id THEN x[i][2]
                     ELSE RegScan(x, id, i - 1)
Registered(R, id) == LET k == RegScan(R.x, id, Len(R.x))
                     IN  IF k # "std" THEN k
                         ELSE IF R.base = "std" THEN StdKind(IdN(id)) ELSE "none"
\* kind of the tag created for an id, "none" if it is unknown
KindOf(R, id) == LET k == Registered(R, id)
                 IN  IF k # "none" THEN k
                     ELSE IF ~R.strict /\ ~Implicit(id) THEN "raw" ELSE "none"

(************************** canonical values *******************************)
RECURSIVE BLess(_, _, _)
BLess(a, b, i) == IF i > Len(b) THEN FALSE
                  ELSE IF i > Len(a) THEN TRUE
                  ELSE IF a[i] # b[i] THEN a[i] < b[i] ELSE BLess(a, b, i + 1)
BytesLess(a, b) == BLess(a, b, 1)

\* Indices of the surviving entries (last of each key), in key order.
DictOrder(keys) ==
  LET live == {i \in 1..Len(keys) : ~\E j \in (i + 1)..Len(keys) : keys[j] = keys[i]}
  IN  SetToSortSeq(live, LAMBDA i, j : BytesLess(keys[i], keys[j]))
Odd(s)  == [i \in 1..(Len(s) \div 2) |-> s[2 * i - 1]]
Even(s) == [i \in 1..(Len(s) \div 2) |-> s[2 * i]]
\* TLC keeps functions unevaluated and evaluates them again at every use; a
\* concatenation gives an evaluated sequence, without which deep tags take forever
Now(q) == q \o <<>>
RECURSIVE Canon(_)
Canon(t) ==
  CASE t.k \in {"arr", "seq", "env"} -> [t EXCEPT !.c = Now([i \in 1..Len(t.c) |-> Canon(t.c[i])])]
    [] t.k = "dict" -> LET o == DictOrder(t.s) IN
         [t EXCEPT !.s = Now([i \in 1..Len(o) |-> t.s[o[i]]]),
                   !.c = Now([i \in 1..Len(o) |-> Canon(t.c[o[i]])])]
    [] t.k = "sdict" -> LET o == DictOrder(Now(Odd(t.s))) IN
         [t EXCEPT !.s = Now([i \in 1..(2 * Len(o)) |->
                            t.s[2 * o[(i + 1) \div 2] - (i - 2 * (i \div 2))]])]
    [] OTHER -> t

(****************************** serialization ******************************)
\* concatenation, divide and conquer (long sequences)
RECURSIVE CatR(_, _, _)
CatR(q, lo, hi) == IF lo > hi THEN <<>> ELSE IF lo = hi THEN q[lo]
                   ELSE LET m == (lo + hi) \div 2 IN CatR(q, lo, m) \o CatR(q, m + 1, hi)
Cat(q) == LET f == Now(q) IN CatR(f, 1, Len(f))
StrTag(b) == <<17>> \o IEnc(WNat(Len(b))) \o b
RECURSIVE Ser(_), SerVal(_)
SerVal(t) ==
  CASE t.k \in FixedKinds \cup BlobKinds \cup {"str"} -> t.b
    [] t.k = "bdec" -> t.s[1] \o t.b
    [] t.k = "ilint" -> IEnc(t.w[1])
    [] t.k = "silint" -> IEnc(ISign(t.w[1]))
    [] t.k \in {"ilarr", "oid"} ->
         IEnc(WNat(Len(t.w))) \o Cat([i \in 1..Len(t.w) |-> IEnc(t.w[i])])
    [] t.k = "range" -> IEnc(t.w[1]) \o t.b
    [] t.k \in {"seq", "env"} -> Cat([i \in 1..Len(t.c) |-> Ser(t.c[i])])
    [] t.k = "arr" -> IEnc(WNat(Len(t.c))) \o Cat([i \in 1..Len(t.c) |-> Ser(t.c[i])])
    [] t.k = "dict" -> LET o == DictOrder(t.s) IN
         IEnc(WNat(Len(o))) \o
         Cat([i \in 1..Len(o) |-> StrTag(t.s[o[i]]) \o Ser(t.c[o[i]])])
    [] t.k = "sdict" -> LET o == DictOrder(Odd(t.s)) IN
         IEnc(WNat(Len(o))) \o
         Cat([i \in 1..Len(o) |-> StrTag(t.s[2 * o[i] - 1]) \o StrTag(t.s[2 * o[i]])])
    [] OTHER -> <<>>
Ser(t) == LET v == SerVal(t) IN
          IEnc(t.id) \o (IF Implicit(t.id) THEN <<>> ELSE IEnc(WNat(Len(v)))) \o v

(******** sizes, computed from the sizes of the parts (naturals) ***********)
Sum(q) == FoldLeft(LAMBDA a, x : a + x, 0, q)
NSize(n) == ISize(WNat(n))
StrTagSize(b) == 1 + NSize(Len(b)) + Len(b)
RECURSIVE VSize(_), TSize(_)
VSize(t) ==
  CASE t.k \in FixedKinds -> FixedSize(t.k)
    [] t.k \in BlobKinds \cup {"str"} -> Len(t.b)
    [] t.k = "bdec" -> 4 + Len(t.b)
    [] t.k = "ilint" -> ISize(t.w[1])
    [] t.k = "silint" -> ISize(ISign(t.w[1]))
    [] t.k \in {"ilarr", "oid"} -> NSize(Len(t.w)) + Sum([i \in 1..Len(t.w) |-> ISize(t.w[i])])
    [] t.k = "range" -> ISize(t.w[1]) + 2
    [] t.k \in {"seq", "env"} -> Sum([i \in 1..Len(t.c) |-> TSize(t.c[i])])
    [] t.k = "arr" -> NSize(Len(t.c)) + Sum([i \in 1..Len(t.c) |-> TSize(t.c[i])])
    [] t.k = "dict" -> LET o == DictOrder(t.s) IN
         NSize(Len(o)) + Sum([i \in 1..Len(o) |-> StrTagSize(t.s[o[i]]) + TSize(t.c[o[i]])])
    [] t.k = "sdict" -> LET o == DictOrder(Odd(t.s)) IN
         NSize(Len(o)) + Sum([i \in 1..Len(o) |->
             StrTagSize(t.s[2 * o[i] - 1]) + StrTagSize(t.s[2 * o[i]])])
    [] OTHER -> 0
TSize(t) == LET v == VSize(t) IN
            ISize(t.id) + (IF Implicit(t.id) THEN 0 ELSE NSize(v)) + v

\* <<size, value size>> of every node in preorder
RECURSIVE Nodes(_)
Nodes(t) == <<<<TSize(t), VSize(t)>>>> \o Cat([i \in 1..Len(t.c) |-> Nodes(t.c[i])])

(******************************* decoding **********************************)
\* All decoders work on s[p .. e-1] (e exclusive) and return the position after
\* what they decoded.  why names the reason of a failure, and then p is the end of
\* the innermost value that was being decoded: no byte from there on may have been
\* consumed.
DFail(why, p) == [ok |-> FALSE, t |-> NoTag, p |-> p, why |-> why]
DOk(t, p)     == [ok |-> TRUE, t |-> t, p |-> p, why |-> ""]

\* Sequences of elements are decoded divide and conquer: n elements, or (for
\* tags, with up set) at most n elements ending exactly at e.
RECURSIVE DecInts(_, _, _, _)
DecInts(s, p, e, n) ==
  IF n = 0 THEN [ok |-> TRUE, w |-> <<>>, p |-> p, why |-> ""]
  ELSE IF n = 1 THEN LET i == IDec(s, p, e) IN
       [ok |-> i.ok, w |-> <<i.v>>, p |-> IF i.ok THEN i.p ELSE e,
        why |-> IF i.ok THEN "" ELSE "ilint"]
  ELSE LET l == DecInts(s, p, e, n \div 2) IN
       IF ~l.ok THEN l
       ELSE LET r == DecInts(s, l.p, e, n - (n \div 2)) IN [r EXCEPT !.w = l.w \o r.w]
\* a string tag in its only form (id 17)
SFail(why, e) == [ok |-> FALSE, b |-> <<>>, p |-> e, why |-> why]
DecStrTag(s, p, e) ==
  LET i == IDec(s, p, e) IN
  IF ~i.ok THEN SFail("ilint", e)
  ELSE IF i.v # WNat(17) THEN SFail("key", e)
  ELSE LET z == IDec(s, i.p, e)
           n == WToNat(z.v) IN
       IF ~z.ok THEN SFail("ilint", e)
       ELSE IF n > MaxTagSize THEN SFail("large", e)
       ELSE IF n > e - z.p THEN SFail("room", e)
       ELSE IF ~Utf8OK(SubSeq(s, z.p, z.p + n - 1)) THEN SFail("utf8", e)
       ELSE [ok |-> TRUE, b |-> SubSeq(s, z.p, z.p + n - 1), p |-> z.p + n, why |-> ""]

RECURSIVE DecTag(_, _, _, _), DecVal(_, _, _, _, _, _), DecTags(_, _, _, _, _, _),
          DecDict(_, _, _, _, _), DecSDict(_, _, _, _)
DecTags(s, p, e, R, n, up) ==
  IF n = 0 \/ (up /\ p = e) THEN [ok |-> TRUE, c |-> <<>>, p |-> p, why |-> ""]
  ELSE IF n = 1 THEN LET r == DecTag(s, p, e, R) IN
       [ok |-> r.ok, c |-> <<r.t>>, p |-> r.p, why |-> r.why]
  ELSE LET l == DecTags(s, p, e, R, n \div 2, up) IN
       IF ~l.ok THEN l
       ELSE LET r == DecTags(s, l.p, e, R, n - (n \div 2), up) IN [r EXCEPT !.c = l.c \o r.c]
\* n dictionary entries: keys and tags
DecDict(s, p, e, R, n) ==
  IF n = 0 THEN [ok |-> TRUE, s |-> <<>>, c |-> <<>>, p |-> p, why |-> ""]
  ELSE IF n = 1 THEN
       LET k == DecStrTag(s, p, e) IN
       IF ~k.ok THEN [ok |-> FALSE, s |-> <<>>, c |-> <<>>, p |-> e, why |-> k.why]
       ELSE LET r == DecTag(s, k.p, e, R) IN
            [ok |-> r.ok, s |-> <<k.b>>, c |-> <<r.t>>, p |-> r.p, why |-> r.why]
  ELSE LET l == DecDict(s, p, e, R, n \div 2) IN
       IF ~l.ok THEN l
       ELSE LET r == DecDict(s, l.p, e, R, n - (n \div 2)) IN
            [r EXCEPT !.s = l.s \o r.s, !.c = l.c \o r.c]
\* n strings
DecSDict(s, p, e, n) ==
  IF n = 0 THEN [ok |-> TRUE, s |-> <<>>, p |-> p, why |-> ""]
  ELSE IF n = 1 THEN
       LET k == DecStrTag(s, p, e) IN [ok |-> k.ok, s |-> <<k.b>>, p |-> k.p, why |-> k.why]
  ELSE LET l == DecSDict(s, p, e, n \div 2) IN
       IF ~l.ok THEN l
       ELSE LET r == DecSDict(s, l.p, e, n - (n \div 2)) IN [r EXCEPT !.s = l.s \o r.s]

\* A value of kind k for a tag with this id, all of s[p .. e-1].
DecVal(k, id, s, p, e, R) ==
  LET n == e - p
      bytes == SubSeq(s, p, e - 1)
      T == Tag(k, id, <<>>, <<>>, <<>>, <<>>)
      cnt == IDec(s, p, e)              \* leading element count
      cn == WToNat(cnt.v)
  IN
  CASE k = "bool" -> IF n # 1 THEN DFail("length", e)
                     ELSE IF s[p] > 1 THEN DFail("bool", e)
                     ELSE DOk([T EXCEPT !.b = bytes], e)
    [] k \in FixedKinds \ {"bool"} ->
         IF n # FixedSize(k) THEN DFail("length", e) ELSE DOk([T EXCEPT !.b = bytes], e)
    [] k \in BlobKinds -> DOk([T EXCEPT !.b = bytes], e)
    [] k = "str" -> IF Utf8OK(bytes) THEN DOk([T EXCEPT !.b = bytes], e) ELSE DFail("utf8", e)
    [] k = "bdec" -> IF n < 4 THEN DFail("length", e)
                     ELSE DOk([T EXCEPT !.s = <<SubSeq(s, p, p + 3)>>,
                                        !.b = SubSeq(s, p + 4, e - 1)], e)
    [] k \in {"ilint", "silint"} ->
         IF ~cnt.ok THEN DFail("ilint", e)
         ELSE DOk([T EXCEPT !.w = <<IF k = "ilint" THEN cnt.v ELSE IUnsign(cnt.v)>>], cnt.p)
    [] k \in {"ilarr", "oid"} ->
         IF ~cnt.ok THEN DFail("ilint", e)
         ELSE IF cn > e - cnt.p THEN DFail("count", e)
         ELSE LET r == DecInts(s, cnt.p, e, cn) IN
              IF ~r.ok THEN DFail(r.why, e) ELSE DOk([T EXCEPT !.w = r.w], r.p)
    [] k = "range" ->
         IF ~cnt.ok THEN DFail("ilint", e)
         ELSE IF e - cnt.p # 2 THEN DFail("length", e)
         ELSE DOk([T EXCEPT !.w = <<cnt.v>>, !.b = SubSeq(s, cnt.p, e - 1)], e)
    [] k \in {"seq", "env"} -> LET r == DecTags(s, p, e, R, e - p, TRUE) IN
         IF ~r.ok THEN DFail(r.why, r.p) ELSE DOk([T EXCEPT !.c = r.c], r.p)
    [] k = "arr" ->
         IF ~cnt.ok THEN DFail("ilint", e)
         ELSE IF cn > e - cnt.p THEN DFail("count", e)
         ELSE LET r == DecTags(s, cnt.p, e, R, cn, FALSE) IN
              IF ~r.ok THEN DFail(r.why, r.p) ELSE DOk([T EXCEPT !.c = r.c], r.p)
    [] k = "dict" ->
         IF ~cnt.ok THEN DFail("ilint", e)
         ELSE IF cn > e - cnt.p THEN DFail("count", e)
         ELSE LET r == DecDict(s, cnt.p, e, R, cn) IN
              IF ~r.ok THEN DFail(r.why, r.p)
              ELSE DOk(Canon([T EXCEPT !.s = r.s, !.c = r.c]), r.p)
    [] k = "sdict" ->
         IF ~cnt.ok THEN DFail("ilint", e)
         ELSE IF cn > e - cnt.p THEN DFail("count", e)
         ELSE LET r == DecSDict(s, cnt.p, e, 2 * cn) IN
              IF ~r.ok THEN DFail(r.why, e) ELSE DOk(Canon([T EXCEPT !.s = r.s]), r.p)
    [] OTHER -> DFail("kind", e)

\* Header: id and end of the value (exclusive).
DecHeader(s, p, e) ==
  LET i == IDec(s, p, e) IN
  IF ~i.ok THEN [ok |-> FALSE, id |-> WZero, v |-> e, n |-> 0, why |-> "ilint"]
  ELSE IF Implicit(i.v) THEN [ok |-> TRUE, id |-> i.v, v |-> i.p,
                              n |-> ImplicitSize(IdN(i.v)), why |-> ""]
  ELSE LET z == IDec(s, i.p, e) IN
       IF ~z.ok THEN [ok |-> FALSE, id |-> i.v, v |-> e, n |-> 0, why |-> "ilint"]
       ELSE IF WToNat(z.v) > MaxTagSize
            THEN [ok |-> FALSE, id |-> i.v, v |-> z.p, n |-> 0, why |-> "large"]
       ELSE [ok |-> TRUE, id |-> i.v, v |-> z.p, n |-> WToNat(z.v), why |-> ""]

\* The value of a tag of kind k behind a header h.
DecBody(k, h, s, e, R) ==
  IF IsILIntId(h.id) THEN DecVal(k, h.id, s, h.v, IF h.v + 9 < e THEN h.v + 9 ELSE e, R)
  ELSE IF h.n > e - h.v THEN DFail("room", e)
  ELSE LET r == DecVal(k, h.id, s, h.v, h.v + h.n, R) IN
       IF r.ok /\ r.p # h.v + h.n THEN DFail("trailing", h.v + h.n) ELSE r

DecTag(s, p, e, R) ==
  LET h == DecHeader(s, p, e) IN
  IF ~h.ok THEN DFail(h.why, h.v)
  ELSE LET k == KindOf(R, h.id) IN
       IF k = "none" THEN DFail("unknown", e) ELSE DecBody(k, h, s, e, R)

\* from the start of s; a whole byte string
Dec(s, R) == DecTag(s, 1, Len(s) + 1, R)
FromBytes(s, R) == LET r == Dec(s, R) IN
                   IF r.ok /\ r.p # Len(s) + 1 THEN DFail("trailing", Len(s) + 1) ELSE r
\* decoding into an existing tag of kind k and this id
DecInto(k, id, s, R) ==
  LET h == DecHeader(s, 1, Len(s) + 1)
      i == IDec(s, 1, Len(s) + 1) IN
  IF i.ok /\ i.v # id THEN DFail("id", i.p)
  ELSE IF ~h.ok THEN DFail(h.why, h.v)
  ELSE DecBody(k, h, s, Len(s) + 1, R)
=============================================================================
