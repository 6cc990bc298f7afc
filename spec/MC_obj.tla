------------------------------- MODULE MC_obj -------------------------------
(***************************************************************************)
(* Reachable states of small worlds of factories and tags, without a bound *)
(* on the length of histories: TLC visits every state of the world once    *)
(* (VIEW), and every transition out of it is printed as the history that   *)
(* leads there, followed by that operation and a look at all objects, with *)
(* the results the model prescribes.                                       *)
(***************************************************************************)
EXTENDS Objects, Json

CONSTANTS FAM, SMALL

N(n) == WNat(n)
Fill(n, x) == [i \in 1..n |-> x]
Up(n) == [i \in 1..n |-> (16 + 7 * i) % 256]
T(k, id, b, w, c, s) == Tag(k, id, b, w, c, s)
U8(x) == T("u8", N(3), <<x>>, <<>>, <<>>, <<>>)
Str(b) == T("str", N(17), b, <<>>, <<>>, <<>>)
Box(k, id, c) == T(k, id, <<>>, <<>>, c, <<>>)
None == NoTag
StdW(k) == N(StdIdOf(k))
Kinds == AllKinds
WithoutId == {"bytes", "bint"}
Id0(k) == IF HasStdId(k) THEN StdW(k) ELSE N(77)

(* two values of every kind, different in every part *)
Val(k, id, v) ==
  LET n == IF k \in FixedKinds THEN FixedSize(k) ELSE 0 IN
  T(k, id,
    CASE k = "bool" -> <<v - 1>> [] k \in FixedKinds -> IF v = 1 THEN Up(n) ELSE Fill(n, 128)
      [] k = "str" -> (IF v = 1 THEN <<195, 169>> ELSE <<120, 121, 122>>)
      [] k = "range" -> (IF v = 1 THEN <<1, 2>> ELSE <<255, 254>>)
      [] k \in BlobKinds \cup {"bdec"} -> (IF v = 1 THEN <<9, 8, 7>> ELSE <<200>>) [] OTHER -> <<>>,
    CASE k \in {"ilint", "range"} -> <<IF v = 1 THEN N(248) ELSE WOnes>> [] k = "silint" -> <<IF v = 1 THEN WOnes ELSE N(124)>>
      [] k \in {"ilarr", "oid"} -> (IF v = 1 THEN <<N(7), N(300)>> ELSE <<WOnes>>) [] OTHER -> <<>>,
    CASE k \in {"arr", "seq", "env"} -> (IF v = 1 THEN <<U8(5)>> ELSE <<Str(<<97>>), U8(6)>>)
      [] k = "dict" -> (IF v = 1 THEN <<U8(5)>> ELSE <<U8(6)>>) [] OTHER -> <<>>,
    CASE k = "bdec" -> <<IF v = 1 THEN <<1, 2, 3, 4>> ELSE <<128, 0, 0, 0>>>>
      [] k = "dict" -> <<IF v = 1 THEN <<97>> ELSE <<98>>>>
      [] k = "sdict" -> (IF v = 1 THEN <<<<97>>, <<49>>>> ELSE <<<<98>>, <<50>>>>) [] OTHER -> <<>>)
Hows(k) == CASE k = "ver" -> {"major", "minor", "revision", "build", "slice", "value"} [] k = "range" -> {"start", "count", "value"}
             [] k = "bdec" -> {"scale", "mut"} [] k \in {"raw", "str", "ilarr", "oid"} -> {"mut", "set"} [] k = "pay" -> {"deref", "mut"}
             [] k \in {"arr", "seq", "env"} -> {"push", "pop", "clear", "assign"}
             [] k \in {"dict", "sdict"} -> {"insert", "remove", "get", "len", "empty", "clear"} [] OTHER -> {"set"}
Ctors(k) == {"new", "default", "with_id", "default_with_id", "value", "id_value"}
            \ (IF k \in {"raw", "pay", "env"} THEN {"with_id", "default", "value"} ELSE IF k \in WithoutId THEN {"with_id", "default_with_id"} ELSE {})

New(s, how, t) == [op |-> "tnew", s |-> s, how |-> how, t0 |-> t]
Set(s, how, a) == [op |-> "tset", s |-> s, how |-> how, a |-> a]
Ser1(s) == [op |-> "tser", s |-> s]
Obs(s) == [op |-> "tobs", s |-> s]
FNew(f, strict, base) == [op |-> "fnew", f |-> f, strict |-> strict, base |-> base]
Into(s, b) == [op |-> "tinto", f |-> 1, s |-> s, b |-> b]
Clone(s, f, d) == [op |-> "tclone", s |-> s, f |-> f, d |-> d]

(* ------------------------------------------------------------ the worlds -- *)
\* keys whose order by code units of 16 bits is not the order by bytes
Keys == {<<97>>, <<239, 191, 191>>, <<240, 144, 128, 128>>} \cup (IF SMALL THEN {} ELSE {<<>>})
DVals == {U8(1), Box("seq", N(22), <<Str(<<97>>)>>)}
SVals == {<<49>>, <<>>}
Entry(k, key, v) == IF k = "dict" THEN T(k, Id0(k), <<>>, <<>>, <<v>>, <<key>>) ELSE T(k, Id0(k), <<>>, <<>>, <<>>, <<key, v>>)
\* an encoded dictionary with its entries as given, in any order and repeated
EncD(k, es) ==
  LET v == IEnc(N(Len(es))) \o Cat([i \in 1..Len(es) |-> StrTag(es[i][1]) \o IF k = "dict" THEN Ser(es[i][2]) ELSE StrTag(es[i][2])])
  IN  IEnc(Id0(k)) \o IEnc(N(Len(v))) \o v
DictOps(k) ==
  LET vs == IF k = "dict" THEN DVals ELSE SVals
      v1 == CHOOSE v \in vs : TRUE
      v2 == CHOOSE v \in vs : v # v1
      ks == SetToSeq(Keys) IN
  {Set(1, "insert", Entry(k, key, v)) : key \in Keys, v \in vs}
  \cup {Set(1, how, Entry(k, key, v1)) : how \in {"remove", "get"}, key \in Keys}
  \cup {Set(1, how, Entry(k, <<97>>, v1)) : how \in {"len", "empty", "clear"}}
  \cup {Into(1, EncD(k, <<>>)), Into(1, EncD(k, <<<<ks[1], v1>>, <<ks[2], v2>>, <<ks[1], v2>>>>)),
        Into(1, EncD(k, <<<<ks[3], v2>>, <<ks[2], v1>>, <<ks[1], v1>>>>)), Into(1, EncD(k, <<<<ks[1], v2>>, <<ks[1], v2>>>>))}

RIds == {N(26), N(16), N(31), WOnes} \cup (IF SMALL THEN {} ELSE {N(33), N(7), N(0)})
RKinds(id) == IF Implicit(id) THEN {"null", "bool"} ELSE {"pay", "seq"} \cup (IF IdN(id) = 16 THEN {"env"} ELSE {}) \cup (IF IdN(id) = 31 THEN {"sdict"} ELSE {})
RegOps == UNION {
  {[op |-> "freg", f |-> 1, id |-> id, k |-> k, how |-> "withid"] : k \in RKinds(id)}
  \cup {[op |-> "fdereg", f |-> 1, id |-> id], [op |-> "fcreate", f |-> 1, id |-> id]}
  \cup {[op |-> "fdec", f |-> 1, s |-> 0, b |-> IEnc(id) \o IF Implicit(id) THEN x ELSE <<Len(x)>> \o x] : x \in {<<>>, <<1>>, <<16, 1, 0>>}}
  \cup {[op |-> "fdec", f |-> 1, s |-> 0, b |-> <<22, Len(IEnc(id)) + 1>> \o IEnc(id) \o <<0>>]} : id \in RIds}
  \cup {[op |-> "fcreate", f |-> 2, id |-> id] : id \in RIds}

AccKinds == Kinds
AccOps(t) ==
  {Set(1, how, Val(t.k, t.id, v)) : how \in Hows(t.k) \ (IF Len(t.c) > 2 THEN {"push"} ELSE {}), v \in {1, 2}}
  \cup {New(1, how, Val(t.k, id, v)) : how \in Ctors(t.k), v \in {1, 2}, id \in IF t.k \in WithoutId THEN {Id0(t.k)} ELSE {Id0(t.k), N(1000)}}
  \cup {Ser1(1), [op |-> "tmove", s |-> 1]}
  \cup {[op |-> "tdown", s |-> 1, k |-> k, id |-> id] : k \in {t.k, "u8", "seq", "pay"}, id \in {t.id, Id0(t.k), N(1000), WZero}}

OwnKinds == {"str", "seq", "dict", "bytes", "u16", "ilarr", "arr", "sdict"}
OwnOps(t) ==
  {Set(s, how, Val(t.k, t.id, v)) : s \in {1, 2}, v \in {1, 2},
     how \in CASE t.k \in {"arr", "seq", "env"} -> {"assign", "clear"} [] t.k \in {"dict", "sdict"} -> {"insert", "clear"} [] OTHER -> {"set"}}
  \cup {Clone(1, 0, 2), Clone(2, 1, 1), Clone(1, 1, 1), [op |-> "teq", s |-> 1, d |-> 2], [op |-> "teq", s |-> 1, d |-> 1]}

IntoKinds == Kinds \ {"pay"}
Bad == Tag("bad", WZero, <<>>, <<>>, <<>>, <<>>)       \* a value left behind by a failed decode
IntoBs(k, id) ==
  {Ser(Val(k, id, 1)), Ser(Val(k, id, 2)), Ser(Empty(k, id)), Ser(Val(k, id, 1)) \o <<0>>,
   SubSeq(Ser(Val(k, id, 2)), 1, Len(Ser(Val(k, id, 2))) - 1), <<>>, IEnc(N(26)) \o <<0>>, IEnc(id)}
IntoOps(t, k, id) == {Into(1, x) : x \in IntoBs(k, id)} \cup (IF t = Bad THEN {} ELSE {Ser1(1), Clone(1, 1, 2)})

(* ---------------------------------------------------------------- driver -- *)
VARIABLES w, st, ops
vars == <<w, st, ops>>
Prep(k) ==      \* the operations a history starts with
  CASE FAM = "dict" -> <<FNew(1, FALSE, "std"), New(1, "new", Val(k, Id0(k), 1))>>
    [] FAM = "reg" -> <<FNew(1, k[1], k[2]), FNew(2, ~k[1], "std")>>
    [] FAM = "acc" -> <<New(1, "new", Val(k, Id0(k), 1))>>
    [] FAM = "own" -> <<FNew(1, TRUE, "std"), New(1, "id_value", Val(k, Id0(k), 1)), New(2, "new", Val(k, Id0(k), 1))>>
    [] OTHER -> <<FNew(1, FALSE, "std"), New(1, "id_value", Val(k, Id0(k), 1))>>
Worlds == CASE FAM = "dict" -> {"dict", "sdict"} [] FAM = "reg" -> {<<x, y>> : x \in BOOLEAN, y \in {"std", "empty"}}
            [] FAM = "acc" -> AccKinds [] FAM = "own" -> OwnKinds [] OTHER -> IntoKinds
Ops == CASE FAM = "dict" -> DictOps(w) [] FAM = "reg" -> RegOps [] FAM = "acc" -> AccOps(st.t[1]) [] FAM = "own" -> OwnOps(st.t[1])
         [] OTHER -> IntoOps(st.t[1], w, Id0(w))
\* the state with an operation applied: the only one ObjStep allows for what ObjSay
\* says, or a marked one where nothing is specified
Ev(s, o) == ObjSay(s, o) @@ o @@ [panic |-> "", err |-> ""]
Failed(s, o) == o.op = "tinto" /\ (s.t[o.s] = Bad \/ LET r == DecInto(s.t[o.s].k, s.t[o.s].id, o.b, s.f[o.f]) IN ~r.ok /\ r.why # "id")
Base(s, o) == IF o.op = "tinto" /\ s.t[o.s] = Bad THEN WithT(s, o.s, Val(w, Id0(w), 1)) ELSE s
Apply(s, o) ==
  LET a == Base(s, o) IN
  IF o.op = "tinto" /\ Failed(a, o) THEN WithT(s, o.s, Bad)
  ELSE IF o.op = "tinto" /\ s.t[o.s] = Bad /\ DecInto(a.t[o.s].k, a.t[o.s].id, o.b, a.f[o.f]).why = "id" THEN s
  ELSE LET S == ObjStep(a, Ev(a, o)) IN
       IF Cardinality(S) = 1 THEN CHOOSE x \in S : TRUE ELSE Assert(FALSE, <<"not one next state", o>>)
Say(s, o) == LET a == Base(s, o) IN
             IF o.op = "tinto" /\ s.t[o.s] = Bad /\ DecInto(a.t[o.s].k, a.t[o.s].id, o.b, a.f[o.f]).why = "id" THEN [ok |-> FALSE, err |-> "type"]
             ELSE ObjSay(a, o)
RECURSIVE Run(_, _)
Run(s, q) == IF q = <<>> THEN s ELSE Run(Apply(s, Head(q)), Tail(q))
RECURSIVE Marked(_, _)
Marked(s, q) == IF q = <<>> THEN <<>> ELSE <<[x |-> Say(s, Head(q))] @@ Head(q)>> \o Marked(Apply(s, Head(q)), Tail(q))
Look(s) == Cat([i \in 1..2 |-> IF i \in DOMAIN s.t /\ s.t[i] # Bad THEN <<Obs(i), Ser1(i)>> ELSE <<>>])
Init == \E x \in Worlds : w = x /\ ops = Prep(x) /\ st = (LET e == ObjInit IN Run(e, Prep(x)))
Emit(q) == PrintT("VEC " \o ToJson([su |-> "obj", ops |-> Marked(ObjInit, q)]))
Next == \E o \in Ops : /\ UNCHANGED w
                       /\ st' = Apply(st, o)
                       /\ ops' = Append(ops, o)
                       /\ Emit(Append(ops, o) \o Look(st'))
\* what of a state matters (registries only for what they say)
View == <<w, st.t, [i \in DOMAIN st.f |-> <<st.f[i].strict, [id \in RIds |-> Registered(st.f[i], id)]>>]>>

(* ------------------------------------------------------------ properties -- *)
Sorted(ks) == \A i \in 1..(Len(ks) - 1) : BytesLess(ks[i], ks[i + 1])
Inv == \A i \in DOMAIN st.t :
         LET t == st.t[i] IN
         t # Bad => /\ Canon(t) = t
                    /\ t.k = "dict" => Sorted(t.s) /\ Len(t.s) = Len(t.c)
                    /\ t.k = "sdict" => Sorted(Odd(t.s))
Done1 == ops'[Len(ops')]
Untouched(i) == i \in DOMAIN st.t => st'.t[i] = st.t[i]
Good == [][/\ Done1.op \in {"tset", "tnew", "tinto"} => \A i \in {1, 2} \ {Done1.s} : Untouched(i)
           /\ Done1.op = "tclone" => \A i \in {1, 2} \ {Done1.d} : Untouched(i)
           /\ Done1.op \in {"tser", "teq", "tdown", "tmove", "fcreate"} => st' = st
           /\ Done1.op \in {"freg", "fdereg"} => \A id \in RIds \ {Done1.id} : Registered(st'.f[1], id) = Registered(st.f[1], id)]_vars
=============================================================================
