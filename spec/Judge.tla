------------------------------- MODULE Judge -------------------------------
(***************************************************************************)
(* What the specification says about each recorded stateless operation.    *)
(* OpOK(e) holds iff event e (inputs and observed results) is a behaviour  *)
(* of the specification.  Lists of results contain the distinct results of *)
(* all access paths and all kinds of readers and writers, so "= <<r>>"     *)
(* says they all agree on r.                                               *)
(***************************************************************************)
EXTENDS Scan

Out(ok, v, n) == IF ok THEN [ok |-> TRUE, v |-> v, n |-> n]
                 ELSE [ok |-> FALSE, v |-> WZero, n |-> 0]
OutB(ok, b, n) == IF ok THEN [ok |-> TRUE, b |-> b, n |-> n]
                  ELSE [ok |-> FALSE, b |-> <<>>, n |-> 0]
OutT(ok, t, n) == IF ok THEN [ok |-> TRUE, t |-> t, n |-> n]
                  ELSE [ok |-> FALSE, t |-> NoTag, n |-> 0]
End(b) == Len(b) + 1

(* --------------------------------------------------------------- ILInt -- *)
JIenc(e) ==
  LET b == IEnc(e.v)  n == ISize(e.v) IN
  /\ Len(b) = n
  /\ e.enc = <<b>>
  /\ e.sz = n
  /\ e.hdr = n
  /\ e.dec = <<Out(TRUE, e.v, n)>>
  /\ e.body = Out(TRUE, e.v, n)
JIsgn(e) ==
  LET u == ISign(e.v)  b == IEnc(u) IN
  /\ e.u = u
  /\ e.back = e.v
  /\ e.enc = <<b>>
  /\ e.sz = Len(b)
  /\ e.dec = <<Out(TRUE, e.v, Len(b))>>
JIdec(e) == LET r == IDec(e.b, 1, End(e.b)) IN e.out = <<Out(r.ok, r.v, r.p - 1)>>
JSdec(e) == LET r == IDec(e.b, 1, End(e.b)) IN
            e.out = <<Out(r.ok, IUnsign(r.v), r.p - 1)>>
JIbody(e) == LET r == IDecBody(e.b) IN e.out = Out(r.ok, r.v, 0)
JIhdr(e)  == e.n = IHdrSize(e.h)
JIuns(e)  == e.s = IUnsign(e.v) /\ e.back = e.v

(* ---------------------------------------------------- primitive values -- *)
Width(ty) == CASE ty \in {"u8", "i8"} -> 1 [] ty \in {"u16", "i16"} -> 2
               [] ty \in {"u32", "i32", "f32"} -> 4 [] OTHER -> 8
JPrim(e) ==
  LET n == Width(e.ty)
      a == e.b \o e.tail IN
  /\ Len(e.b) = n => e.enc = <<e.b>>
  /\ e.dec = <<Out(Len(a) >= n, WPad(SubSeq(a, 1, n)), n)>>
JStr(e) ==
  LET u == Utf8OK(e.b)
      x == SubSeq(e.b, 1, e.n)
      fits == e.n <= Len(e.b) IN
  /\ u => e.enc = <<e.b>>
  /\ e.encb = <<e.b>>
  /\ e.dec = <<OutB(fits /\ Utf8OK(x), x, e.n)>>
  /\ e.decb = <<OutB(fits, x, e.n)>>
JStrTag(e) ==
  LET r == DecStrTag(e.raw, 1, End(e.raw)) IN
  /\ Utf8OK(e.b) => /\ e.enc = <<StrTag(e.b)>>
                    /\ e.sz = StrTagSize(e.b)
  /\ e.dec = <<OutB(r.ok, r.b, r.p - 1)>>
JIds(e) ==
  /\ e.impl = Implicit(e.v)
  /\ e.resv = Reserved(e.v)
  /\ e.isz = (IF Implicit(e.v) THEN ImplicitSize(IdN(e.v)) ELSE 0)
  /\ e.sok = (WToNat(e.v) <= MaxTagSize)
  /\ e.sv = (IF e.sok THEN e.v ELSE WZero)

(* ------------------------------------------------------------------ tags -- *)
JSer(e) ==
  LET t == Canon(e.t) IN
  /\ e.obs = <<t>>
  /\ e.by = <<Ser(t)>>
  /\ e.val = <<SerVal(t)>>
  /\ e.nodes = Nodes(t)
  /\ e.impl = Implicit(t.id)
  /\ e.resv = Reserved(t.id)
JDec(e) ==
  LET r == Dec(e.b, e.R)
      h == DecHeader(e.b, 1, End(e.b))
      all == r.ok /\ r.p = End(e.b)
  IN
  /\ e.out = <<OutT(r.ok, r.t, r.p - 1)>>
  /\ ~r.ok => e.hw <= r.p - 1
  /\ e.fb = all
  /\ e.fbt = (IF all THEN r.t ELSE NoTag)
  /\ (r.ok /\ ~all) => e.fberr = "corrupted"
  /\ r.ok => e.re = Ser(r.t)
  /\ (h.ok /\ KindOf(e.R, h.id) = "none") => e.errs = <<"unknown">>
  /\ (h.why = "large" /\ KindOf(e.R, h.id) # "none") => e.errs = <<"large">>
\* every strict prefix of an accepted encoding is rejected, and so is padding
JTrunc(e) ==
  LET r == FromBytes(e.b, e.R) IN
  /\ e.full = r.ok
  /\ r.ok => /\ e.okp = <<>>
             /\ e.pads = <<"corrupted">>
RECURSIVE CatDec(_, _, _, _)
CatDec(b, p, R, m) ==
  IF m = 0 THEN [ts |-> <<>>, ok |-> TRUE, n |-> p - 1]
  ELSE LET r == DecTag(b, p, End(b), R) IN
       IF ~r.ok THEN [ts |-> <<>>, ok |-> FALSE, n |-> 0]
       ELSE LET q == CatDec(b, r.p, R, m - 1) IN [q EXCEPT !.ts = <<r.t>> \o q.ts]
JCat(e) == e.out = <<CatDec(e.b, 1, e.R, e.m)>>
JInto(e) ==
  LET r == DecInto(e.t.k, e.t.id, e.b, e.R) IN
  /\ e.out = <<[ok |-> r.ok, t |-> IF r.ok THEN r.t ELSE NoTag,
                n |-> IF r.ok THEN r.p - 1 ELSE 0, same |-> TRUE,
                id |-> e.t.id, id0 |-> e.t.id, sz |-> TRUE,
                by |-> IF r.ok THEN Ser(r.t) ELSE <<>>]>>
  /\ r.why = "id" => e.errs = <<"type">>
\* decoding just a value of e.n bytes, from a source that may hold more or less
DecValue(k, id, b, n, R) ==
  IF k \in {"ilint", "silint"}
  THEN DecVal(k, id, b, 1, IF Len(b) < 9 THEN End(b) ELSE 10, R)
  ELSE IF n > Len(b) THEN DFail("room", End(b))
  ELSE LET r == DecVal(k, id, b, 1, n + 1, R) IN
       IF r.ok /\ r.p # n + 1 THEN DFail("trailing", n + 1) ELSE r
JVal(e) ==
  LET r == DecValue(e.t.k, e.t.id, e.b, e.n, e.R) IN
  /\ e.out = <<[ok |-> r.ok, t |-> IF r.ok THEN r.t ELSE NoTag,
                n |-> IF r.ok THEN r.p - 1 ELSE 0, id |-> e.t.id, sz |-> TRUE,
                by |-> IF r.ok THEN Ser(r.t) ELSE <<>>]>>
  /\ ~r.ok => e.hw <= r.p - 1
\* a correct value e.v and z filling bytes, all within the declared length
JPad(e) ==
  LET k == KindOf(e.R, e.id)
      r == DecVal(k, e.id, e.v, 1, End(e.v), e.R)
      whole == r.ok /\ r.p = End(e.v)
      takes(z) == whole /\ (z = 0 \/ k \in BlobKinds \cup {"bdec"}
                                \/ (k = "str" /\ e.fill < 128)
                                \/ (k = "seq" /\ e.fill = 0)) IN
  /\ e.id # WZero /\ ~Implicit(e.id)
  /\ whole
  /\ e.acc = [i \in DOMAIN e.zs |-> [j \in 1..5 |-> takes(e.zs[i])]]
\* Values that claim a size (and write nothing) in containers: sizes are exact
\* 64-bit sums, and headers tell them.
WSum(q) == FoldLeft(LAMBDA a, x : WAdd(a, x), WZero, q)
RECURSIVE HVal(_), HSize(_), HSer(_)
HVal(t) ==
  CASE t.k \in {"claim", "cpay"} -> t.w[1]
    [] t.k = "seq" -> WSum([i \in DOMAIN t.c |-> HSize(t.c[i])])
    [] t.k = "arr" -> WAdd(WNat(NSize(Len(t.c))), WSum([i \in DOMAIN t.c |-> HSize(t.c[i])]))
    [] t.k = "dict" -> WAdd(WNat(NSize(Len(t.c)) + Sum([i \in DOMAIN t.s |-> StrTagSize(t.s[i])])),
                            WSum([i \in DOMAIN t.c |-> HSize(t.c[i])]))
    [] OTHER -> WNat(VSize(t))
HSize(t) == LET v == HVal(t) IN
            IF Implicit(t.id) THEN WAdd(WNat(ISize(t.id)), v)
            ELSE WAdd(WNat(ISize(t.id) + ISize(v)), v)
HSer(t) ==
  IEnc(t.id) \o (IF Implicit(t.id) THEN <<>> ELSE IEnc(HVal(t))) \o
  (CASE t.k \in {"claim", "cpay"} -> t.b
    [] t.k = "seq" -> Cat([i \in DOMAIN t.c |-> HSer(t.c[i])])
    [] t.k = "arr" -> IEnc(WNat(Len(t.c))) \o Cat([i \in DOMAIN t.c |-> HSer(t.c[i])])
    [] t.k = "dict" -> LET o == DictOrder(t.s) IN
         IEnc(WNat(Len(o))) \o Cat([i \in DOMAIN o |-> StrTag(t.s[o[i]]) \o HSer(t.c[o[i]])])
    [] OTHER -> SerVal(t))
JHuge(e) == e.size = HSize(e.t) /\ e.vsize = HVal(e.t) /\ e.by = <<HSer(e.t)>>
\* tags that write other than they declare: the bytes are still what is cloned and
\* compared
JLie(e) ==
  LET b == HSer(e.t)
      S == FromBytes(b, StdReg(FALSE))
      r == FromBytes(b, e.R)
      q == b = HSer(e.u) IN
  /\ e.by = <<b>>
  /\ e.std = OutT(S.ok, S.t, 0) /\ e.own = OutT(r.ok, r.t, 0)
  /\ e.stdb = (IF S.ok THEN Ser(S.t) ELSE <<>>) /\ e.ownb = (IF r.ok THEN Ser(r.t) ELSE <<>>)
  /\ e.ab = q /\ e.ba = q /\ e.aa /\ e.bb
\* whatever a broken application type did, the operations that follow are not affected
JBroken(e) ==
  LET G == FromBytes(e.good, e.R)
      D == DecInto("seq", WNat(22), e.seq, e.R)
      S == FromBytes(Ser(e.u), StdReg(FALSE))
      c == FromBytes(Ser(G.t), e.R) IN
  /\ \A i \in DOMAIN e.do :
       CASE e.do[i] = "create" -> e.broke[i] = (IF IdN(e.id) % 2 = 1 THEN "panic" ELSE "ok")
         [] e.do[i] \in {"ser", "clone", "clonef", "eq"} -> e.broke[i] = (IF e.boom THEN "panic" ELSE "err")
         [] OTHER -> e.broke[i] = (IF IdN(e.id) % 2 = 1 \/ IdN(e.id) % 4 = 0 THEN "panic" ELSE "err")
  /\ e.after = OutT(G.ok, G.t, 0)
  /\ G.ok => e.clone = OutT(c.ok, c.t, 0)
  /\ e.eq
  /\ e.std = OutT(S.ok, S.t, 0)
  /\ e.into = OutT(D.ok, D.t, 0)
JEq(e) ==
  LET q == Ser(Canon(e.a)) = Ser(Canon(e.b)) IN
  e.ab = q /\ e.ba = q /\ e.aa /\ e.bb
\* large values: n elements of a fixed pattern, changed at the places d; the kinds
\* that keep plain bytes have the same serialized form
EqForm(x) == [k |-> IF x.k \in BlobKinds \cup {"str"} THEN "blob" ELSE x.k,
              id |-> x.id, n |-> x.n, d |-> {x.d[i] : i \in DOMAIN x.d}]
JEqBig(e) ==
  LET q == EqForm(e.x) = EqForm(e.y) IN
  /\ e.ab = q /\ e.ba = q /\ e.aa /\ e.bb
  /\ e.clone = <<TRUE>> /\ e.back = <<TRUE>>
JClone(e) ==
  LET R == IF e.std THEN StdReg(FALSE) ELSE e.R
      r == FromBytes(Ser(e.t), R) IN
  /\ e.out = OutT(r.ok, r.t, 0)
  /\ e.indep
  /\ r.ok => /\ e.by = Ser(r.t)
             /\ e.eq = (Ser(r.t) = Ser(e.t))

(* --------------------------------------------------------------- extents -- *)
\* all derived positions and slices of an extent in b
Derived(x, b) ==
  [id |-> x.id, off |-> x.off, hdr |-> x.hdr, val |-> x.val,
   size |-> WAdd(x.hdr, x.val), next |-> XEnd(x), vs |-> WAdd(x.off, x.hdr), ve |-> XEnd(x),
   ts |-> x.off, te |-> XEnd(x),
   tb |-> IF XEndN(x) <= Len(b) THEN TagBytes(b, x) ELSE <<-1>>,
   vb |-> IF XEndN(x) <= Len(b) THEN ValBytes(b, x) ELSE <<-1>>]
\* scanning with wanted ids: the calls that found another id
OtherIds(xs, want) ==
  SelectSeq([i \in DOMAIN xs |-> i], LAMBDA i : want # <<>> /\ xs[i].id # want[1 + ((i - 1) % Len(want))])
JScan(e) ==
  LET r == ScanFrom(e.b, 0, e.m)
      o == OtherIds(r.x, e.want)
      xs == SelectSeq([i \in DOMAIN r.x |-> i], LAMBDA i : \A j \in DOMAIN o : o[j] # i)
      dx == [i \in DOMAIN xs |-> Derived(r.x[xs[i]], e.b)]
  IN
  \E end \in {"error", "none", "more"} :
  \E n \in {0, r.p} :
  /\ e.out = <<[x |-> dx, other |-> o, end |-> end, n |-> n]>>
  /\ IF r.ok THEN end = "more" /\ n = r.p
     ELSE \/ end = "error" /\ n = 0
          \/ end = "none" /\ n = r.p /\ r.p = Len(e.b)
JExt(e) ==
  LET m == MapAll(e.x, e.par) IN
  /\ e.e = Derived(e.x, e.b)
  /\ e.maps = m
  /\ e.err = (IF Len(m) = Len(e.par) THEN "" ELSE "corrupted")
  /\ e.dflt = XZero
  /\ e.copy
\* nested scanning along a path of <<bytes skipped in the value, child index>>:
\* gives the extents, each relative to the value it was found in
RECURSIVE Walk(_, _, _)
Walk(b, path, i) ==
  IF i > Len(path) THEN [ok |-> TRUE, x |-> <<>>]
  ELSE LET r == Nth(b, path[i][1], path[i][2]) IN
       IF ~r.ok THEN [ok |-> FALSE, x |-> <<>>]
       ELSE LET q == Walk(ValBytes(b, r.x), path, i + 1) IN [q EXCEPT !.x = <<r.x>> \o q.x]
RECURSIVE Lift(_, _)
Lift(xs, i) == IF i = 1 THEN xs[1]
               ELSE [xs[i] EXCEPT !.off = WAdd(WAdd(Lift(xs, i - 1).off, xs[i - 1].hdr), xs[i].off)]
JNest(e) ==
  LET w == Walk(e.b, e.path, 1)
      x == Lift(w.x, Len(w.x)) IN
  IF ~w.ok THEN e.err # ""
  ELSE /\ e.err = ""
       /\ e.local = w.x
       /\ e.x = Derived(x, e.b)
       /\ e.inner = ValBytes(e.b, x)

(* -------------------------------------------------- failing destinations -- *)
\* rows <<k, ok, accepted, prefix>>: a destination with room for k bytes
JFault(e) ==
  LET t == Canon(e.t)  b == Ser(t)  n == Len(b) IN
  /\ e.by = <<b>>
  /\ e.obs = <<t>>
  /\ ~e.ro
  /\ \A i \in DOMAIN e.rows :
       LET r == e.rows[i] IN
       /\ r[2] = (r[1] >= n)
       /\ r[4]
       /\ r[3] <= r[1]
       /\ r[2] => r[3] = n

(* ------------------------------------------------------ work and memory -- *)
\* Containers kinds[1] (innermost) .. kinds[d] around a counting leaf.
NullTag == Tag("null", WZero, <<>>, <<>>, <<>>, <<>>)
ContId(k) == WNat(CASE k = "seq" -> 22 [] k = "arr" -> 21 [] OTHER -> 30)
\* 'w' followed by the decimal digits of i < 10
WKey(i) == <<119, 48 + i>>
Wrap(k, t, wide) ==
  IF k = "dict" THEN Tag("dict", ContId(k), <<>>, <<>>,
                         <<t>> \o [i \in 1..wide |-> NullTag],
                         <<<<107>>>> \o [i \in 1..wide |-> WKey(i - 1)])
  ELSE Tag(k, ContId(k), <<>>, <<>>, <<t>> \o [i \in 1..wide |-> NullTag], <<>>)
RECURSIVE Chain(_, _, _, _)
Chain(kinds, wide, leaf, i) ==
  IF i = 0 THEN leaf ELSE Wrap(kinds[i], Chain(kinds, wide, leaf, i - 1), wide)
CountLeaf == Tag("pay", WNat(1000), <<5, 5, 5>>, <<>>, <<>>, <<>>)
\* length of the serialized chain, level by level
ChainLen(kinds, wide, leaf, d) ==
  FoldLeft(LAMBDA n, i :
             LET v == n + wide
                      + (IF kinds[i] = "seq" THEN 0 ELSE NSize(1 + wide))
                      + (IF kinds[i] = "dict" THEN 3 + 4 * wide ELSE 0)
             IN  1 + NSize(v) + v,
           leaf, [i \in 1..d |-> i])
WorkBound(d) == 4 * (d + 2)
JWork(e) ==
  LET d == Len(e.kinds)
      n == ChainLen(e.kinds, e.wide, TSize(CountLeaf), d)
      lim(q, f) == \A i \in 1..3 : q[i] <= f[i]
      w == WorkBound(d) IN
  /\ e.good
  /\ e.len = n /\ e.sz = n
  /\ e.size[1] <= w /\ e.size[2] = 0 /\ e.size[3] = 0
  /\ lim(e.ser, <<w, d + 2, 0>>)
  /\ lim(e.ser2, <<w, d + 2, 0>>)
  /\ lim(e.eq, <<2 * w, 2 * (d + 2), 0>>)
  /\ lim(e.clone, <<2 * w, d + 2, d + 2>>)
  /\ lim(e.dec, <<w, 0, d + 2>>)
  /\ e.visits <= n * (d + 2)
  /\ e.again
  /\ lim(e.into, <<w, 0, d + 2>>) /\ lim(e.from, <<w, 0, d + 2>>)
  \* malformed in the innermost or outermost place: refused, after no more work
  /\ Len(e.bad) = 5
  /\ \A i \in 1..5 : ~e.bad[i].ok /\ lim(e.bad[i].c, <<w, 0, d + 2>>) /\ e.bad[i].visits <= n * (d + 2)

\* A chain of claimed headers: levels of containers with claimed sizes and
\* counts (words), then possibly the header of a byte or text value.
CountOf(l) == IF l.k = "seq" THEN <<>> ELSE IEnc(l.n)
MemHead(e) ==
  Cat([i \in 1..Len(e.levels) |->
        LET l == e.levels[i] IN IEnc(l.id) \o IEnc(l.sz) \o CountOf(l) \o l.pre])
  \o (IF e.leaf.k = "none" THEN <<>> ELSE IEnc(e.leaf.id) \o IEnc(e.leaf.sz))
MemBoundKiB(e) ==
  LET claim == WToNat(e.leaf.sz)
      adm == IF e.leaf.k = "none" \/ claim > MaxTagSize THEN 0 ELSE claim
  IN  2 * ((adm \div 1024) + 1) + (128 * Len(e.b)) \div 1024 + 64 * (Len(e.levels) + 1)
JMem(e) ==
  LET claim == WToNat(e.leaf.sz) IN
  /\ e.b = MemHead(e) \o e.rest
  /\ e.kib <= MemBoundKiB(e)
  /\ (e.levels = <<>> /\ claim > MaxTagSize) =>
        ~e.ok /\ e.err = "large" /\ e.n <= Len(MemHead(e))
  /\ (/\ e.levels = <<>> /\ claim <= MaxTagSize /\ claim = e.zeros + Len(e.rest)
      /\ \/ e.leaf.k \in {"bytes", "bint", "raw"}
         \/ e.leaf.k = "str" /\ Utf8OK(e.rest)) =>
        e.ok /\ e.vs = claim /\ e.n = Len(e.b) + e.zeros
  /\ e.zeros = 0 => (e.ok = Dec(e.b, e.R).ok)

\* A custom type that tries to read beyond its value.
JGreedy(e) ==
  LET R == [e.R EXCEPT !.x = Append(@, <<e.gid, "pay">>)]
      r == Dec(e.b, R) IN
  /\ e.leaks = <<>>
  /\ e.out = <<[ok |-> r.ok, by |-> IF r.ok THEN Ser(r.t) ELSE <<>>,
                n |-> IF r.ok THEN r.p - 1 ELSE 0]>>

\* what stands before and behind the n bytes in the value
BigPre(k, n) ==
  CASE k = "bdec" -> <<0, 0, 0, 7>>
    [] k = "seq" -> <<16>> \o IEnc(WNat(n))
    [] k = "arr" -> <<1, 17>> \o IEnc(WNat(n))
    [] k \in {"dict", "sdict"} -> <<1, 17, 1, 107, 17>> \o IEnc(WNat(n))
    [] k \in {"dkey", "skey"} -> <<1, 17>> \o IEnc(WNat(n))
    [] OTHER -> <<>>
BigSuf(k) == CASE k = "dkey" -> <<0>> [] k = "skey" -> <<17, 0>> [] OTHER -> <<>>
JBig(e) ==
  LET vs == Len(BigPre(e.k, e.n)) + e.n + Len(BigSuf(e.k))
      h == IEnc(e.id) \o IEnc(WNat(vs)) IN
  /\ e.hdr = h \o BigPre(e.k, e.n)
  /\ e.suf = BigSuf(e.k)
  /\ e.len = Len(h) + vs
  /\ e.size = e.len /\ e.vsize = vs /\ e.used = <<e.len>>
  /\ e.intact /\ e.back /\ e.cut
  /\ e.scan = ExtN(e.id, 0, Len(h), vs)
\* containers of many elements, told by their elements' common size
ManyByte(i) == (i * 7 + (i \div 251)) % 200
RECURSIVE Digits8(_, _)
Digits8(i, m) == IF m = 0 THEN <<>> ELSE Append(Digits8(i \div 10, m - 1), 48 + (i % 10))
ManyElem(k, i) ==
  CASE k \in {"arr", "seq"} -> <<3, ManyByte(i)>>
    [] k \in {"ilarr", "oid"} -> <<ManyByte(i)>>
    [] k = "dict" -> StrTag(Digits8(i, 8)) \o <<3, ManyByte(i)>>
    [] OTHER -> StrTag(Digits8(i, 8)) \o StrTag(<<32 + (ManyByte(i) % 90)>>)
ManyHead(k, id, n, c) ==
  LET cnt == IF k = "seq" THEN <<>> ELSE IEnc(WNat(c)) IN
  IEnc(id) \o IEnc(WNat(Len(cnt) + n * Len(ManyElem(k, 0)))) \o cnt
JMany(e) ==
  LET h == ManyHead(e.k, e.id, e.n, e.n)
      tag == Len(IEnc(e.id))
      v == (IF e.k = "seq" THEN 0 ELSE Len(IEnc(WNat(e.n)))) + e.n * e.es
      hl == tag + Len(IEnc(WNat(v))) IN
  /\ e.es = Len(ManyElem(e.k, 0))
  /\ e.head = h
  /\ e.len = hl + v /\ e.size = e.len /\ e.vsize = v /\ e.used = e.len
  /\ e.ok /\ e.back /\ e.cut /\ e.clone
  /\ e.scan = ExtN(e.id, 0, hl, v)
  /\ e.els = [i \in DOMAIN e.at |-> ManyElem(e.k, e.at[i])]
  \* only the right count is accepted
  /\ e.acc = [i \in DOMAIN e.wrong |-> e.wrong[i] = h]
\* scanning tags with large (virtual) values of zeros: a segment is the header of
\* a tag and the zeros that follow (its value, except possibly for the last one)
SegExt(b, off) ==
  LET i == IDec(b, 1, End(b))
      z == IDec(b, i.p, End(b)) IN
  IF Implicit(i.v) THEN Ext(i.v, off, WNat(i.p - 1), WNat(ImplicitSize(IdN(i.v))))
  ELSE Ext(i.v, off, WNat(z.p - 1), z.v)
RECURSIVE SegScan(_, _, _)
SegScan(segs, i, off) ==
  IF i > Len(segs) THEN [x |-> <<>>, ok |-> TRUE, n |-> off]
  ELSE LET x == SegExt(segs[i].b, off)
           next == WAdd(WAdd(off, WNat(Len(segs[i].b))), segs[i].z) IN
       IF WLess(segs[i].z, x.val) THEN [x |-> <<>>, ok |-> FALSE, n |-> WZero]
       ELSE IF i = Len(segs) THEN [x |-> <<x>>, ok |-> TRUE, n |-> XEnd(x)]
       ELSE LET t == SegScan(segs, i + 1, next) IN [t EXCEPT !.x = <<x>> \o @]
JSkipBig(e) == e.out = <<SegScan(e.segs, 1, WZero)>>
JDepth(e) ==
  LET n == ChainLen([i \in 1..e.d |-> e.k], 0, 1, e.d) IN
  /\ e.ok /\ e.same /\ e.size = n /\ e.len = n

\* Operations repeated in one process, also side by side in several threads and
\* among many other calls: all their results are the ones allowed for one alone.
RECURSIVE OpOK(_)
JRep(e) == \A i \in DOMAIN e.ops : \A j \in DOMAIN e.outs[i] : OpOK(e.outs[i][j] @@ e.ops[i])

\* operations that run interleaved: each gives what it gives alone
Plain(x) == [id |-> x.id, off |-> x.off, hdr |-> x.hdr, val |-> x.val]
Alone(e, j) ==
  CASE j.k = "dec" -> LET r == Dec(j.b, e.R) IN OutT(r.ok, r.t, r.p - 1)
    [] j.k = "into" -> LET r == DecInto(j.t.k, j.t.id, j.b, e.R) IN OutT(r.ok, r.t, r.p - 1)
    [] j.k = "ser" -> LET b == Ser(e.tags[j.i + 1]) IN [ok |-> TRUE, b |-> b, n |-> Len(b)]
    [] j.k = "clone" -> LET r == FromBytes(Ser(e.tags[j.i + 1]), e.R) IN OutT(r.ok, r.t, 0)
    [] j.k = "eq" -> [eq |-> Ser(Canon(e.tags[j.i + 1])) = Ser(Canon(e.tags[j.j + 1]))]
    [] OTHER -> LET r == ScanFrom(j.b, 0, 8) IN [x |-> [i \in DOMAIN r.x |-> Plain(r.x[i])]]
JInter(e) == e.same /\ e.res = [i \in DOMAIN e.jobs |-> Alone(e, e.jobs[i])]

OpOK(e) ==
  /\ e.panic = ""
  /\ CASE e.op = "ienc" -> JIenc(e)     [] e.op = "isgn" -> JIsgn(e)
       [] e.op = "idec" -> JIdec(e)     [] e.op = "sdec" -> JSdec(e)
       [] e.op = "ibody" -> JIbody(e)   [] e.op = "ihdr" -> JIhdr(e)
       [] e.op = "iuns" -> JIuns(e)     [] e.op = "prim" -> JPrim(e)
       [] e.op = "str" -> JStr(e)       [] e.op = "strtag" -> JStrTag(e)
       [] e.op = "ids" -> JIds(e)       [] e.op = "ser" -> JSer(e)
       [] e.op = "dec" -> JDec(e)       [] e.op = "trunc" -> JTrunc(e)
       [] e.op = "cat" -> JCat(e)       [] e.op = "into" -> JInto(e)
       [] e.op = "eq" -> JEq(e)         [] e.op = "clone" -> JClone(e)
       [] e.op = "eqbig" -> JEqBig(e)
       [] e.op = "scan" -> JScan(e)     [] e.op = "ext" -> JExt(e)
       [] e.op = "nest" -> JNest(e)     [] e.op = "fault" -> JFault(e)
       [] e.op = "work" -> JWork(e)     [] e.op = "mem" -> JMem(e)
       [] e.op = "greedy" -> JGreedy(e) [] e.op = "big" -> JBig(e)
       [] e.op = "skipbig" -> JSkipBig(e) [] e.op = "depth" -> JDepth(e)
       [] e.op = "rep" -> JRep(e)       [] e.op = "inter" -> JInter(e)
       [] e.op = "many" -> JMany(e)     [] e.op = "val" -> JVal(e)
       [] e.op = "pad" -> JPad(e)       [] e.op = "huge" -> JHuge(e)
       [] e.op = "lie" -> JLie(e)       [] e.op = "broken" -> JBroken(e)
       [] OTHER -> FALSE
=============================================================================
