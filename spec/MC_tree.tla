------------------------------ MODULE MC_tree ------------------------------
(***************************************************************************)
(* Every tag tree of at most NODES nodes over a family of leaves, built    *)
(* step by step (open a container, put a leaf, close it) like a client of  *)
(* the library builds it.  The properties of the wire format are checked   *)
(* on each of them, and each of them is handed to the implementation in    *)
(* the operation named by EMIT.                                            *)
(*  FAM "leaf": leaves of all kinds, values and ids;  "tree": few leaves,  *)
(*  many shapes.                                                           *)
(***************************************************************************)
EXTENDS Scan, Json, TLC

CONSTANTS FAM, NODES, EMIT

(* ------------------------------------------------------------- leaves -- *)
Ks == <<"null", "bool", "i8", "u8", "i16", "u16", "i32", "u32", "i64", "u64", "f32", "f64", "b128", "ilint", "silint", "str",
        "bdec", "ilarr", "oid", "range", "ver", "arr", "seq", "dict", "sdict", "pay", "env">>
Own(k) == WNat(1000 + (CHOOSE i \in DOMAIN Ks : Ks[i] = k))     \* an id registered for kind k
StdId(k) == WNat(CHOOSE n \in StdIds : StdKind(n) = k)
\* the standard ids, and an own id for every kind
R == [strict |-> FALSE, base |-> "std", x |-> [i \in DOMAIN Ks |-> <<Own(Ks[i]), Ks[i]>>]]
Fill(n, x) == [i \in 1..n |-> x]
Up(n) == [i \in 1..n |-> (16 + 7 * i) % 256]
T(k, id, b, w, s) == Tag(k, id, b, w, <<>>, s)
Both(k, b, w, s) == {T(k, StdId(k), b, w, s), T(k, Own(k), b, w, s)}
Std(k, b, w, s) == {T(k, StdId(k), b, w, s)}
\* bit patterns: 0, all ones, least and greatest, ascending
Pats(n) == {Fill(n, 0), Fill(n, 255), <<128>> \o Fill(n - 1, 0), <<127>> \o Fill(n - 1, 255), Up(n)}
Floats(k) ==           \* infinities, quiet and signalling NaNs with payload, subnormal
  IF k = "f32" THEN {<<127, 128, 0, 0>>, <<255, 128, 0, 0>>, <<127, 192, 0, 1>>, <<127, 128, 0, 1>>, <<255, 160, 1, 2>>, <<0, 0, 0, 1>>}
  ELSE {<<127, 240, 0, 0, 0, 0, 0, 0>>, <<127, 248, 0, 0, 0, 0, 0, 1>>, <<127, 240, 0, 0, 0, 0, 0, 1>>, <<255, 244, 0, 0, 0, 0, 1, 0>>,
        <<0, 0, 0, 0, 0, 0, 0, 1>>}
Ints == {WZero, WNat(247), WNat(248), WNat(503), WNat(504), WNat(65783), WNat(65784), WOnes, WSub(WOnes, WNat(1)),
         [WZero EXCEPT ![1] = 128], [WOnes EXCEPT ![1] = 127], WNat(123), WNat(124)}
Texts == {<<>>, <<97>>, <<195, 169>>, <<239, 187, 191, 97>>, <<0>>, <<32, 10>>, <<240, 159, 152, 128>>, <<238, 128, 128>>,
          <<101, 204, 129>>, <<244, 143, 191, 191>>, <<237, 159, 191>>}
Blobs == {<<>>, <<0>>, <<255, 22, 1>>, Fill(247, 7), Fill(248, 9)}
Wide == {IdW : IdW \in {WNat(32), WNat(247), WNat(248), WNat(503), WNat(504), WNat(65784), WOnes, [WZero EXCEPT ![4] = 1]}}
FullLeaves ==
  Both("null", <<>>, <<>>, <<>>)
  \cup UNION {Both("bool", <<x>>, <<>>, <<>>) : x \in {0, 1}}
  \cup UNION {UNION {Std(k, b, <<>>, <<>>) : b \in Pats(FixedSize(k))} \cup {T(k, Own(k), Up(FixedSize(k)), <<>>, <<>>)} :
                k \in {"i8", "u8", "i16", "u16", "i32", "u32", "i64", "u64", "f32", "f64", "b128", "ver"}}
  \cup UNION {UNION {Std(k, b, <<>>, <<>>) : b \in Floats(k)} : k \in {"f32", "f64"}}
  \cup UNION {UNION {Std(k, <<>>, <<w>>, <<>>) : w \in Ints} \cup {T(k, Own(k), <<>>, <<WNat(300)>>, <<>>)} : k \in {"ilint", "silint"}}
  \cup UNION {Std("str", b, <<>>, <<>>) : b \in Texts} \cup {T("str", Own("str"), <<195, 169>>, <<>>, <<>>)}
  \cup UNION {Std(k, b, <<>>, <<>>) : k \in {"bytes", "bint"}, b \in Blobs}
  \cup {T("pay", Own("pay"), b, <<>>, <<>>) : b \in Blobs}
  \cup UNION {{T("raw", i, b, <<>>, <<>>) : i \in Wide} : b \in {<<>>, <<5, 6>>}}
  \cup {T("raw", WNat(77), b, <<>>, <<>>) : b \in Blobs}
  \cup UNION {Both("bdec", b, <<>>, <<s>>) : b \in {<<>>, <<9>>, Fill(244, 3)}, s \in {<<0, 0, 0, 0>>, <<128, 0, 0, 1>>}}
  \cup UNION {Both(k, <<>>, w, <<>>) : k \in {"ilarr", "oid"}, w \in {<<>>, <<WZero>>, <<WNat(248), WOnes, WNat(7)>>}}
  \cup UNION {Both("range", b, <<w>>, <<>>) : b \in {<<0, 0>>, <<255, 254>>}, w \in {WZero, WNat(248), WOnes}}
  \cup UNION {Both("sdict", <<>>, <<>>, s) :
        s \in {<<>>, <<<<>>, <<>>>>, <<<<98>>, <<49>>, <<97>>, <<195, 169>>>>, <<<<97>>, <<49>>, <<97>>, <<50>>>>,
               <<<<240, 144, 128, 128>>, <<>>, <<238, 128, 128>>, <<51>>>>}}
SmallLeaves == {T("null", WZero, <<>>, <<>>, <<>>), T("u16", WNat(5), <<255, 22>>, <<>>, <<>>), T("ilint", WNat(10), <<>>, <<WNat(248)>>, <<>>),
                T("str", WNat(17), <<97>>, <<>>, <<>>), T("raw", WNat(77), <<>>, <<>>, <<>>), T("bytes", WNat(16), Fill(243, 17), <<>>, <<>>)}
Leaves == IF FAM = "leaf" THEN FullLeaves ELSE SmallLeaves
Boxes == {<<"seq", WNat(22)>>, <<"arr", WNat(21)>>, <<"dict", WNat(30)>>}
         \cup (IF FAM = "leaf" THEN {<<k, Own(k)>> : k \in {"seq", "arr", "dict", "env"}} ELSE {<<"seq", Own("seq")>>})
Keys == IF FAM = "leaf" THEN {<<>>, <<195, 169>>} ELSE {<<97>>, <<98>>}

(* ------------------------------------------------------------ building -- *)
VARIABLES stack, n, done
vars == <<stack, n, done>>
Init == stack = <<>> /\ n = 0 /\ done = NoTag
\* t becomes a child of the innermost open container, or the result
Put(st, t) ==
  IF st = <<>> THEN stack' = <<>> /\ done' = t
  ELSE LET m == Len(st)  f == st[m] IN
       /\ done' = NoTag
       /\ IF f.k = "dict" THEN \E key \in Keys : stack' = [st EXCEPT ![m].c = Append(@, t), ![m].s = Append(@, key)]
          ELSE stack' = [st EXCEPT ![m].c = Append(@, t)]
Leaf == n < NODES /\ n' = n + 1 /\ \E t \in Leaves : Put(stack, t)
Open == n < NODES /\ n' = n + 1 /\ UNCHANGED done
        /\ \E x \in Boxes : stack' = Append(stack, T(x[1], x[2], <<>>, <<>>, <<>>))
Close == stack # <<>> /\ UNCHANGED n /\ Put(SubSeq(stack, 1, Len(stack) - 1), stack[Len(stack)])
Next == done = NoTag /\ (Leaf \/ Open \/ Close)

(* ---------------------------------------------------------- properties -- *)
b == Ser(done)
c == Canon(done)
Junk == {<<>>, <<0>>, <<255, 22, 1>>}
Sized == Len(b) = TSize(done) /\ Len(SerVal(done)) = VSize(done)
Stable == Ser(c) = b /\ Canon(c) = c
RoundTrip == \A x \in Junk : LET r == Dec(b \o x, R) IN r.ok /\ r.t = c /\ r.p = Len(b) + 1
Whole == FromBytes(b, R).ok /\ ~FromBytes(b \o <<0>>, R).ok
Prefix == \A i \in 0..(Len(b) - 1) : ~Dec(SubSeq(b, 1, i), R).ok
Scanned == \A x \in Junk : LET r == Extent(b \o x, 0) IN
             /\ r.ok /\ r.x.id = done.id /\ XEndN(r.x) = Len(b)
             /\ ValBytes(b \o x, r.x) = SerVal(done)
Inv == done = NoTag \/ (Sized /\ Stable /\ RoundTrip /\ Whole /\ Scanned /\ (Len(b) > 60 \/ Prefix))

(* -------------------------------------------------------------- emission -- *)
Say(op) == PrintT("VEC " \o ToJson(op))
Old(k, id) ==
  Tag(k, id,
      CASE k = "bool" -> <<1>> [] k = "str" -> <<111, 108, 100>> [] k \in FixedKinds -> Fill(FixedSize(k), 170)
        [] k = "range" -> <<1, 2>> [] k \in BlobKinds \cup {"bdec"} -> <<1, 2, 3>> [] OTHER -> <<>>,
      IF k \in {"ilint", "silint", "range"} THEN <<WNat(7)>> ELSE IF k \in {"ilarr", "oid"} THEN <<WNat(7), WNat(300)>> ELSE <<>>,
      IF k \in {"arr", "seq", "env", "dict"} THEN <<T("null", WZero, <<>>, <<>>, <<>>)>> ELSE <<>>,
      IF k = "bdec" THEN <<<<1, 2, 3, 4>>>> ELSE IF k = "dict" THEN <<<<111>>>> ELSE IF k = "sdict" THEN <<<<111>>, <<112>>>> ELSE <<>>)
\* tags to compare with t: itself, its bytes under another type, and ones that
\* differ in one place
Rivals(t) ==
  {t, T("raw", WNat(77), <<>>, <<>>, <<>>)}
  \cup (IF Reserved(t.id) /\ IdN(t.id) < 16 THEN {} ELSE {T("raw", t.id, SerVal(t), <<>>, <<>>), T("pay", t.id, SerVal(t), <<>>, <<>>)})
  \cup (IF t.b # <<>> /\ t.k \notin {"str", "bool"} THEN {[t EXCEPT !.b[Len(t.b)] = 255 - @], [t EXCEPT !.b[1] = 255 - @]} ELSE {})
  \cup (IF t.w # <<>> THEN {[t EXCEPT !.w[Len(t.w)] = WSub(WOnes, @)]} ELSE {})
  \cup (IF t.k \in {"arr", "seq", "env"} /\ t.c # <<>> THEN {[t EXCEPT !.c = SubSeq(@, 1, Len(@) - 1)], [t EXCEPT !.c = Reverse(@)],
                                                 [t EXCEPT !.c = Append(@, T("null", WZero, <<>>, <<>>, <<>>))]} ELSE {})
  \cup (IF t.k = "dict" /\ t.c # <<>> THEN {[t EXCEPT !.s = Reverse(@), !.c = Reverse(@)], [t EXCEPT !.s = Append(@, <<122>>), !.c = Append(@, t.c[1])]} ELSE {})
\* the ways down to every node: bytes skipped in a value, and index of the child
RECURSIVE Paths(_)
Down(t, i) == CASE t.k \in {"seq", "env"} -> <<0, i - 1>> [] t.k = "arr" -> <<1, i - 1>> [] OTHER -> <<1, 2 * i - 1>>
Paths(t) == {<<>>} \cup UNION {{<<Down(t, i)>> \o p : p \in Paths(t.c[i])} : i \in 1..Len(t.c)}
Some(m) == IF Len(b) <= 40 THEN {} ELSE {0, 1, 2, 3, 4, Len(b) \div 2, Len(b) - 1, Len(b), Len(b) + 1}
Emit ==
  \/ done = NoTag
  \/ CASE EMIT = "ser" -> Say([op |-> "ser", t |-> done])
       [] EMIT = "dec" -> \A x \in Junk : Say([op |-> "dec", b |-> b \o x, R |-> R])
       [] EMIT = "strict" -> Say([op |-> "dec", b |-> b, R |-> [R EXCEPT !.strict = TRUE]]) /\ Say([op |-> "dec", b |-> b, R |-> StdReg(FALSE)])
                             /\ Say([op |-> "dec", b |-> b, R |-> StdReg(TRUE)])
       [] EMIT = "trunc" -> Say([op |-> "trunc", b |-> b, R |-> R])
       [] EMIT = "into" -> \A pre \in {<<>>, <<b>>, <<SubSeq(b, 1, Len(b) - 1)>>} :
                             Say([op |-> "into", b |-> b, R |-> R, t |-> Old(done.k, done.id), pre |-> pre])
       [] EMIT = "clone" -> Say([op |-> "clone", t |-> done, std |-> FALSE, R |-> R]) /\ Say([op |-> "clone", t |-> done, std |-> TRUE, R |-> R])
       [] EMIT = "eq" -> \A u \in Rivals(done) : Say([op |-> "eq", a |-> done, b |-> u])
       [] EMIT = "scan" -> /\ \A x \in Junk : Say([op |-> "scan", b |-> b \o x, m |-> 2, want |-> <<>>])
                           /\ Say([op |-> "scan", b |-> b \o b, m |-> 2, want |-> <<done.id>>])
                           /\ Say([op |-> "scan", b |-> b \o b, m |-> 2, want |-> <<done.id, WNat(1)>>])
                           /\ Say([op |-> "scan", b |-> SubSeq(b, 1, Len(b) - 1), m |-> 1, want |-> <<>>])
                           /\ (Len(b) < 3 \/ Say([op |-> "scan", b |-> SubSeq(b, 1, 2), m |-> 1, want |-> <<>>]))
       [] EMIT = "nest" -> \A p \in Paths(c) : \A pre \in {<<>>, <<3, 7, 16, 1, 0>>} :
                             Say([op |-> "nest", b |-> pre \o b, path |-> <<<<Len(pre), 0>>>> \o p])
       [] EMIT = "fault" -> Say([op |-> "fault", t |-> done, ks |-> SetToSeq(Some(0))])
       [] OTHER -> FALSE
=============================================================================
