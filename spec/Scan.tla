-------------------------------- MODULE Scan --------------------------------
(***************************************************************************)
(* Tag extents: what a scanner that only understands ids and lengths finds *)
(* in a byte string, the derived positions, and the mapping of an extent   *)
(* into the space of an enclosing tag.  Offsets in data are naturals from  *)
(* 0; the parts of an extent are words.                                    *)
(***************************************************************************)
EXTENDS Wire

Ext(id, off, hdr, val) == [id |-> id, off |-> off, hdr |-> hdr, val |-> val]
ExtN(id, off, hdr, val) == Ext(id, WNat(off), WNat(hdr), WNat(val))
XZero == Ext(WZero, WZero, WZero, WZero)
XFail == [ok |-> FALSE, x |-> XZero]
XEnd(x) == WAdd(WAdd(x.off, x.hdr), x.val)
XEndN(x) == WToNat(XEnd(x))

\* The extent that starts at offset o of s.
Extent(s, o) ==
  LET e == Len(s) + 1
      i == IDec(s, o + 1, e)
      n == IdN(i.v)
  IN
  IF ~i.ok \/ n = 15 THEN XFail
  ELSE LET z == IF Implicit(i.v) THEN i ELSE IDec(s, i.p, e)
           v == IF IsILIntId(i.v) THEN (IF i.p < e THEN IHdrSize(s[i.p]) ELSE WCap)
                ELSE IF Implicit(i.v) THEN ImplicitSize(n) ELSE WToNat(z.v)
       IN  IF ~z.ok \/ v > e - z.p THEN XFail
           ELSE [ok |-> TRUE, x |-> ExtN(i.v, o, z.p - 1 - o, v)]

\* All extents from offset o on, at most m; [x, ok, p]: ok is FALSE if scanning
\* stopped at something that is not a tag (or the end), p the offset reached.
RECURSIVE ScanFrom(_, _, _)
ScanFrom(s, o, m) ==
  IF m = 0 THEN [x |-> <<>>, ok |-> TRUE, p |-> o]
  ELSE LET r == Extent(s, o) IN
       IF ~r.ok THEN [x |-> <<>>, ok |-> FALSE, p |-> o]
       ELSE LET t == ScanFrom(s, XEndN(r.x), m - 1) IN [t EXCEPT !.x = <<r.x>> \o t.x]

\* An extent found in the value of p, in the space of p.
MapOK(x, p) == WLeq(XEnd(x), p.val)
MapX(x, p)  == [x EXCEPT !.off = WAdd(WAdd(p.off, p.hdr), @)]
\* Through parents ps[1], ps[2], ...: the successful results in order.
RECURSIVE MapAll(_, _)
MapAll(x, ps) == IF ps = <<>> \/ ~MapOK(x, Head(ps)) THEN <<>>
                 ELSE <<MapX(x, Head(ps))>> \o MapAll(MapX(x, Head(ps)), Tail(ps))

\* bytes of s[o .. o+n-1], offsets from 0
Slice(s, o, n) == SubSeq(s, o + 1, o + n)
TagBytes(s, x) == Slice(s, WToNat(x.off), WToNat(WAdd(x.hdr, x.val)))
ValBytes(s, x) == Slice(s, WToNat(WAdd(x.off, x.hdr)), WToNat(x.val))

\* k-th (from 0) extent starting the scan at offset o of s
RECURSIVE Nth(_, _, _)
Nth(s, o, k) == LET r == Extent(s, o) IN
                IF ~r.ok \/ k = 0 THEN r ELSE Nth(s, XEndN(r.x), k - 1)
=============================================================================
