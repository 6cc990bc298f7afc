------------------------------ MODULE Objects ------------------------------
(***************************************************************************)
(* Factories (creator registries) and tag objects as one state machine.    *)
(* State: f, a function from factory slots to registries, and t, a         *)
(* function from tag slots to tag records (Wire), always canonical.        *)
(* ObjStep(st, e) is the set of states the specification allows after      *)
(* event e (arguments and observed results); {} if it allows none.         *)
(***************************************************************************)
EXTENDS Judge, TLC

ObjInit == [f |-> <<>>, t |-> <<>>]

Zeros(n) == [i \in 1..n |-> 0]
StdIdOf(k) == CHOOSE n \in StdIds : StdKind(n) = k
HasStdId(k) == \E n \in StdIds : StdKind(n) = k
\* A newly created tag: zero or empty.
Empty(k, id) ==
  Tag(k, id,
      CASE k \in FixedKinds -> Zeros(FixedSize(k)) [] k = "range" -> <<0, 0>> [] OTHER -> <<>>,
      IF k \in {"ilint", "silint", "range"} THEN <<WZero>> ELSE <<>>,
      <<>>,
      IF k = "bdec" THEN <<Zeros(4)>> ELSE <<>>)
\* Constructors: "value" (standard id and value), "id_value", and the empty ones.
Made(how, t) ==
  CASE how = "value" -> Canon([t EXCEPT !.id = IF HasStdId(t.k) /\ t.k \notin {"arr", "seq", "dict", "sdict"} THEN WNat(StdIdOf(t.k)) ELSE @])
    [] how = "id_value" -> Canon(t)
    [] how \in {"new", "default"} ->
         Empty(t.k, IF HasStdId(t.k) THEN WNat(StdIdOf(t.k)) ELSE t.id)
    [] OTHER -> Empty(t.k, IF t.k \in {"bytes", "bint"} THEN WNat(StdIdOf(t.k)) ELSE t.id)

\* ---- setters: the new value
Paste(b, a, i, j) == [x \in 1..Len(b) |-> IF x \in i..j THEN a[x] ELSE b[x]]
DictGet(t, key) == {i \in 1..Len(t.s) : t.s[i] = key}            \* positions (dict)
SGet(t, key) == {i \in 1..(Len(t.s) \div 2) : t.s[2 * i - 1] = key}
Without(q, i) == SubSeq(q, 1, i - 1) \o SubSeq(q, i + 1, Len(q))
SetTag(t, how, a) ==
  CASE t.k = "null" -> t
    [] t.k \in {"raw", "bytes", "bint", "str", "pay"} -> [t EXCEPT !.b = a.b]
    [] t.k = "ver" -> [t EXCEPT !.b =
         CASE how = "major" -> Paste(@, a.b, 1, 4) [] how = "minor" -> Paste(@, a.b, 5, 8)
           [] how = "revision" -> Paste(@, a.b, 9, 12) [] how = "build" -> Paste(@, a.b, 13, 16)
           [] OTHER -> a.b]
    [] t.k \in FixedKinds -> [t EXCEPT !.b = a.b]
    [] t.k = "bdec" -> IF how = "scale" THEN [t EXCEPT !.s = <<a.s[1]>>] ELSE [t EXCEPT !.b = a.b]
    [] t.k = "range" -> (CASE how = "start" -> [t EXCEPT !.w = a.w]
                           [] how = "count" -> [t EXCEPT !.b = a.b]
                           [] OTHER -> [t EXCEPT !.w = a.w, !.b = a.b])
    [] t.k \in {"ilint", "silint", "ilarr", "oid"} -> [t EXCEPT !.w = a.w]
    [] t.k \in {"arr", "seq", "env"} ->
         LET n == [i \in 1..Len(a.c) |-> Canon(a.c[i])] IN
         CASE how = "push" -> [t EXCEPT !.c = @ \o n]
           [] how = "pop" -> [t EXCEPT !.c = IF @ = <<>> THEN @ ELSE SubSeq(@, 1, Len(@) - 1)]
           [] how = "clear" -> [t EXCEPT !.c = <<>>]
           [] OTHER -> [t EXCEPT !.c = n]
    [] t.k = "dict" ->
         (CASE how = "insert" -> Canon([t EXCEPT !.s = Append(@, a.s[1]), !.c = Append(@, a.c[1])])
            [] how = "remove" -> LET p == DictGet(t, a.s[1]) IN
                 IF p = {} THEN t
                 ELSE LET i == CHOOSE i \in p : TRUE IN [t EXCEPT !.s = Without(@, i), !.c = Without(@, i)]
            [] how \in {"get", "len", "empty"} -> t
            [] OTHER -> [t EXCEPT !.s = <<>>, !.c = <<>>])
    [] t.k = "sdict" ->
         (CASE how = "insert" -> Canon([t EXCEPT !.s = @ \o <<a.s[1], a.s[2]>>])
            [] how = "remove" -> LET p == SGet(t, a.s[1]) IN
                 IF p = {} THEN t
                 ELSE LET i == CHOOSE i \in p : TRUE IN
                      [t EXCEPT !.s = SubSeq(@, 1, 2 * i - 2) \o SubSeq(@, 2 * i + 1, Len(@))]
            [] how \in {"get", "len", "empty"} -> t
            [] OTHER -> [t EXCEPT !.s = <<>>])
    [] OTHER -> t
\* ---- what the map operations return
SetRet(t, how, a) ==
  CASE t.k = "dict" /\ how \in {"insert", "remove", "get"} ->
         LET p == DictGet(t, a.s[1]) IN
         IF p = {} THEN <<>> ELSE <<t.c[CHOOSE i \in p : TRUE]>>
    [] t.k = "sdict" /\ how \in {"insert", "remove", "get"} ->
         LET p == SGet(t, a.s[1]) IN
         IF p = {} THEN <<>> ELSE <<t.s[2 * (CHOOSE i \in p : TRUE)]>>
    [] t.k = "dict" /\ how = "len" -> Len(t.s)
    [] t.k = "dict" /\ how = "empty" -> (t.s = <<>>)
    [] t.k = "sdict" /\ how = "len" -> Len(t.s) \div 2
    [] t.k = "sdict" /\ how = "empty" -> (t.s = <<>>)
    [] OTHER -> <<>>

Down(t, k, id) ==
  LET is == t.k = k
      both == is /\ t.id = id IN
  <<is, is, both, both>>
DownR(t, k, id) ==
  LET r == IF t.k = k /\ t.id = id THEN "ok" ELSE "type" IN
  <<r, r, r, IF r = "ok" THEN r ELSE "custom">>

WithF(st, i, R) == [st EXCEPT !.f = (i :> R) @@ @]
WithT(st, i, t) == [st EXCEPT !.t = (i :> t) @@ @]
If(c, st) == IF c THEN {st} ELSE {}

ObjStep(st, e) ==
  IF e.panic # "" THEN {} ELSE
  CASE e.op = "fnew" -> {WithF(st, e.f, [strict |-> e.strict, base |-> e.base, x |-> <<>>])}
    [] e.op = "freg" ->
         LET R == st.f[e.f] IN
         If(e.old = Registered(R, e.id), WithF(st, e.f, [R EXCEPT !.x = Append(@, <<e.id, e.k>>)]))
    [] e.op = "fdereg" ->
         LET R == st.f[e.f] IN
         If(e.old = Registered(R, e.id), WithF(st, e.f, [R EXCEPT !.x = Append(@, <<e.id, "none">>)]))
    [] e.op = "fcreate" ->
         LET R == st.f[e.f]  k == KindOf(R, e.id) IN
         If(/\ e.t = <<IF k = "none" THEN <<>> ELSE <<Empty(k, e.id)>>>>
            /\ e.strict = R.strict, st)
    [] e.op = "fdec" ->
         LET R == st.f[e.f]
             r == Dec(e.b, R)
             h == DecHeader(e.b, 1, End(e.b)) IN
         If(/\ e.out = OutT(r.ok, r.t, r.p - 1)
            /\ (h.ok /\ KindOf(R, h.id) = "none") => e.err = "unknown",
            IF r.ok /\ e.s > 0 THEN WithT(st, e.s, r.t) ELSE st)
    [] e.op = "tnew" ->
         LET t == Made(e.how, e.t0) IN
         If(e.t = t /\ e.impl = Implicit(t.id) /\ e.resv = Reserved(t.id), WithT(st, e.s, t))
    [] e.op = "tset" ->
         LET t == SetTag(st.t[e.s], e.how, e.a) IN
         If(e.t = t /\ e.ret = SetRet(st.t[e.s], e.how, e.a), WithT(st, e.s, t))
    [] e.op = "tobs" ->
         LET t == st.t[e.s] IN
         If(e.t = t /\ e.impl = Implicit(t.id) /\ e.resv = Reserved(t.id), st)
    [] e.op = "tser" ->
         LET t == st.t[e.s] IN
         If(e.by = Ser(t) /\ e.size = TSize(t) /\ e.vsize = VSize(t), st)
    [] e.op = "tinto" ->
         LET t == st.t[e.s]  r == DecInto(t.k, t.id, e.b, st.f[e.f]) IN
         IF r.ok THEN If(e.ok /\ e.t = r.t /\ e.n = r.p - 1, WithT(st, e.s, r.t))
         ELSE IF r.why = "id" THEN If(~e.ok /\ e.err = "type" /\ e.t = t, st)
         \* after a failed decode the value is not specified: adopt what is there
         ELSE If(~e.ok /\ e.t.k = t.k /\ e.t.id = t.id, WithT(st, e.s, e.t))
    [] e.op = "tclone" ->
         LET R == IF e.f = 0 THEN StdReg(FALSE) ELSE st.f[e.f]
             r == FromBytes(Ser(st.t[e.s]), R) IN
         If(e.out = OutT(r.ok, r.t, 0), IF r.ok THEN WithT(st, e.d, r.t) ELSE st)
    [] e.op = "teq" ->
         LET q == Ser(st.t[e.s]) = Ser(st.t[e.d]) IN If(e.ab = q /\ e.ba = q, st)
    [] e.op = "tdown" ->
         LET t == st.t[e.s] IN
         If(SubSeq(e.r, 1, 4) = Down(t, e.k, e.id) /\ SubSeq(e.r, 5, 8) = DownR(t, e.k, e.id), st)
    [] e.op = "tmove" ->
         LET t == st.t[e.s] IN If(e.t = <<t>> /\ e.by = Ser(t), st)
    [] e.op = "pure" -> If(OpOK(e.o @@ e), st)
    [] OTHER -> {}

(* What the specification prescribes for an operation in a state, for driving
   the implementation (defined where it leaves no choice). *)
ObjSay(st, o) ==
  CASE o.op \in {"freg", "fdereg"} -> [old |-> Registered(st.f[o.f], o.id)]
    [] o.op = "fcreate" ->
         LET R == st.f[o.f]  k == KindOf(R, o.id) IN
         [t |-> <<IF k = "none" THEN <<>> ELSE <<Empty(k, o.id)>>>>, strict |-> R.strict]
    [] o.op = "fdec" ->
         LET R == st.f[o.f]
             r == Dec(o.b, R)
             h == DecHeader(o.b, 1, End(o.b)) IN
         [out |-> OutT(r.ok, r.t, r.p - 1)]
         @@ (IF h.ok /\ KindOf(R, h.id) = "none" THEN [err |-> "unknown"] ELSE [panic |-> ""])
    [] o.op = "tnew" -> LET t == Made(o.how, o.t0) IN [t |-> t, impl |-> Implicit(t.id), resv |-> Reserved(t.id)]
    [] o.op = "tset" -> [t |-> SetTag(st.t[o.s], o.how, o.a), ret |-> SetRet(st.t[o.s], o.how, o.a)]
    [] o.op = "tobs" -> LET t == st.t[o.s] IN [t |-> t, impl |-> Implicit(t.id), resv |-> Reserved(t.id)]
    [] o.op = "tser" -> LET t == st.t[o.s] IN [by |-> Ser(t), size |-> TSize(t), vsize |-> VSize(t)]
    [] o.op = "tinto" ->
         LET t == st.t[o.s]  r == DecInto(t.k, t.id, o.b, st.f[o.f]) IN
         IF r.ok THEN [ok |-> TRUE, t |-> r.t, n |-> r.p - 1]
         ELSE IF r.why = "id" THEN [ok |-> FALSE, err |-> "type", t |-> t]
         ELSE [ok |-> FALSE, t |-> [k |-> t.k, id |-> t.id]]
    [] o.op = "tclone" ->
         LET R == IF o.f = 0 THEN StdReg(FALSE) ELSE st.f[o.f]
             r == FromBytes(Ser(st.t[o.s]), R) IN [out |-> OutT(r.ok, r.t, 0)]
    [] o.op = "teq" -> LET q == Ser(st.t[o.s]) = Ser(st.t[o.d]) IN [ab |-> q, ba |-> q]
    [] o.op = "tdown" -> LET t == st.t[o.s] IN [r |-> Down(t, o.k, o.id) \o DownR(t, o.k, o.id)]
    [] o.op = "tmove" -> LET t == st.t[o.s] IN [t |-> <<t>>, by |-> Ser(t)]
    [] OTHER -> [panic |-> ""]
=============================================================================
