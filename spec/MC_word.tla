------------------------------ MODULE MC_word ------------------------------
(***************************************************************************)
(* 64-bit integers in full width.  FAM "bytes": a machine reads an integer *)
(* byte by byte (header, then the announced body, shifting in), over all   *)
(* inputs whose body changes at most F times between the bytes of Digits,  *)
(* with whatever behind; it has to agree with the definition in ILInt, and *)
(* every input it gets, complete or not, is handed to the implementation   *)
(* with the prescribed result.  FAM "values": the same for all words whose *)
(* digits change at most F times, and their neighbours, encoded.           *)
(***************************************************************************)
EXTENDS Judge, Json, TLC

CONSTANTS FAM, F, WIDE

Digits == IF WIDE THEN {0, 1, 7, 8, 127, 128, 247, 248, 254, 255} ELSE {0, 7, 8, 128, 255}
Headers == {0, 1, 127, 128, 246, 247} \cup 248..255
VARIABLES s, need, acc, left, ph
vars == <<s, need, acc, left, ph>>
Init == s = <<>> /\ need = 0 /\ acc = WZero /\ left = F /\ ph = (IF FAM = "bytes" THEN "header" ELSE "digits")
Shift(w, d) == Append(SubSeq(w, 2, WN), d)
Cost(d) == IF Len(s) > (IF FAM = "bytes" THEN 1 ELSE 0) /\ s[Len(s)] # d THEN 1 ELSE 0
Header == /\ ph = "header"
          /\ \E h \in Headers : /\ s' = <<h>> /\ left' = left
                                /\ IF h < 248 THEN ph' = "end" /\ acc' = WNat(h) /\ need' = 0
                                   ELSE ph' = "body" /\ acc' = WZero /\ need' = h - 247
Body == /\ ph = "body"
        /\ \E d \in Digits : /\ Cost(d) <= left /\ left' = left - Cost(d)
                             /\ s' = Append(s, d) /\ need' = need - 1
                             /\ IF need > 1 THEN acc' = Shift(acc, d) /\ ph' = "body"
                                ELSE LET x == WAddX(Shift(acc, d), WNat(248)) IN
                                     acc' = Tail(x) /\ ph' = (IF x[1] = 0 THEN "end" ELSE "overflow")
Digit == /\ ph = "digits" /\ Len(s) < WN
         /\ \E d \in Digits : Cost(d) <= left /\ left' = left - Cost(d) /\ s' = Append(s, d)
         /\ UNCHANGED <<need, acc, ph>>
Next == Header \/ Body \/ Digit

Junk == {<<>>, <<0>>, <<255, 248, 7>>}
Whole == ph = "digits" /\ Len(s) = WN
\* the word itself, and those around it
Values == {s, WAdd(s, WNat(1)), WSub(s, WNat(1)), WAdd(s, WNat(248)), WAdd(s, WNat(247))}
Inv ==
  IF ph = "digits"
  THEN Whole => \A v \in Values : /\ Len(IEnc(v)) = ISize(v) /\ IDec(IEnc(v), 1, ISize(v) + 1).v = v
                                 /\ IUnsign(ISign(v)) = v /\ ISign(IUnsign(v)) = v
  ELSE \A x \in Junk :
         LET r == IDec(s \o x, 1, Len(s) + Len(x) + 1) IN
         CASE ph = "end" -> r.ok /\ r.v = acc /\ r.p = Len(s) + 1
           [] ph = "overflow" -> ~r.ok /\ r.why = "overflow"
           [] OTHER -> x = <<>> => ~r.ok /\ r.why = "short"
Say(o) == PrintT("VEC " \o ToJson(o))
Ok == ph = "end"
Over == {<<>>, <<255, 248, 7>>}
Emit ==
  IF ph = "digits"
  THEN Whole => \A v \in Values :
         LET b == IEnc(v)  u == ISign(v)  c == IEnc(u) IN
         /\ Say([op |-> "ienc", v |-> v, tail |-> <<255>>,
                 x |-> [enc |-> <<b>>, sz |-> Len(b), hdr |-> Len(b), dec |-> <<Out(TRUE, v, Len(b))>>, body |-> Out(TRUE, v, Len(b))]])
         /\ Say([op |-> "isgn", v |-> v, tail |-> <<0>>,
                 x |-> [u |-> u, back |-> v, enc |-> <<c>>, sz |-> Len(c), dec |-> <<Out(TRUE, v, Len(c))>>]])
         /\ Say([op |-> "iuns", v |-> v, x |-> [s |-> IUnsign(v), back |-> v]])
  ELSE /\ \A x \in (IF Ok THEN Over ELSE {<<>>}) :
            /\ Say([op |-> "idec", b |-> s \o x, x |-> [out |-> <<Out(Ok, acc, Len(s))>>]])
            /\ Say([op |-> "sdec", b |-> s \o x, x |-> [out |-> <<Out(Ok, IUnsign(acc), Len(s))>>]])
       /\ s # <<>> => LET d == Tail(s)  r == IDecBody(d) IN
                      Say([op |-> "ibody", b |-> d, x |-> [out |-> Out(r.ok, r.v, 0)]])
=============================================================================
