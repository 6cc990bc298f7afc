------------------------------ MODULE MC_utf8 ------------------------------
(***************************************************************************)
(* Texts, byte by byte.  A machine reads the bytes of all strings of at    *)
(* most N bytes over the bytes where something changes (the borders of     *)
(* the classes of lead and continuation bytes), and computes code points.  *)
(* The definition of well-formed text in Utf8 has to accept exactly what   *)
(* the machine reads as scalar values in their shortest form.  Every       *)
(* string the machine could go on with, and every one it stopped at, is    *)
(* handed to the implementation.                                           *)
(***************************************************************************)
EXTENDS Wire, Json, TLC

CONSTANT N

Bytes == {0, 65, 127, 128, 143, 144, 159, 160, 191, 192, 193, 194, 223, 224, 225, 236, 237, 238, 239, 240, 241, 243, 244, 245,
          247, 248, 255}
VARIABLES s, need, cp, min, bad
vars == <<s, need, cp, min, bad>>
Init == s = <<>> /\ need = 0 /\ cp = 0 /\ min = 0 /\ bad = FALSE
Lead(x) ==
  /\ need = 0
  /\ IF x < 128 THEN need' = 0 /\ cp' = 0 /\ min' = 0 /\ bad' = FALSE
     ELSE IF x \in 192..223 THEN need' = 1 /\ cp' = x - 192 /\ min' = 128 /\ bad' = FALSE
     ELSE IF x \in 224..239 THEN need' = 2 /\ cp' = x - 224 /\ min' = 2048 /\ bad' = FALSE
     ELSE IF x \in 240..247 THEN need' = 3 /\ cp' = x - 240 /\ min' = 65536 /\ bad' = FALSE
     ELSE need' = 0 /\ cp' = 0 /\ min' = 0 /\ bad' = TRUE
Follow(x) ==
  /\ need > 0
  /\ LET c == 64 * cp + (x - 128) IN
     IF x \notin 128..191 THEN need' = 0 /\ cp' = 0 /\ min' = 0 /\ bad' = TRUE
     ELSE /\ need' = need - 1
          /\ cp' = (IF need = 1 THEN 0 ELSE c)
          /\ min' = (IF need = 1 THEN 0 ELSE min)
          /\ bad' = (need = 1 /\ (c < min \/ c > 1114111 \/ c \in 55296..57343))
Next == ~bad /\ Len(s) < N /\ \E x \in Bytes : s' = Append(s, x) /\ (Lead(x) \/ Follow(x))
\* every border of the code space, encoded
Codes == {c \in UNION {(x - 2)..(x + 2) : x \in {2, 65, 127, 128, 192, 2047, 2048, 4096, 53248, 55295, 55296, 56320, 57343, 57344, 65279, 65534,
                                               65536, 65537, 262144, 1048576, 1114109}} : c <= 1114111}
ASSUME \A c \in Codes : Utf8OK(U8Enc(c)) = (c \notin 55296..57343)
Inv == Utf8OK(s) = (~bad /\ need = 0)
Say(o) == PrintT("VEC " \o ToJson(o))
Ok == ~bad /\ need = 0
Emit ==
  LET n == Len(s)
      R == StdReg(FALSE)
      d == <<17, n>> \o s
      e == <<31, n + 4, 1, 17, n>> \o s \o <<17, 0>>
      f == <<30, n + 4, 1, 17, n>> \o s \o <<0>>
      X(b) == LET r == Dec(b, R) IN
              [op |-> "dec", b |-> b, R |-> R, x |-> [out |-> <<[ok |-> r.ok, t |-> IF r.ok THEN r.t ELSE NoTag,
                                                               n |-> IF r.ok THEN r.p - 1 ELSE 0]>>]] IN
  /\ Say([op |-> "str", b |-> s, n |-> n,
          x |-> [dec |-> <<[ok |-> Ok, b |-> IF Ok THEN s ELSE <<>>, n |-> IF Ok THEN n ELSE 0]>>,
                 decb |-> <<[ok |-> TRUE, b |-> s, n |-> n]>>, encb |-> <<s>>]])
  /\ Say(X(d))
  /\ bad => Say(X(<<17, n + 1>> \o s \o <<65>>))
  /\ n < 4 => Say(X(e)) /\ Say(X(f))
=============================================================================
