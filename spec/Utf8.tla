-------------------------------- MODULE Utf8 --------------------------------
(***************************************************************************)
(* UTF-8 well-formedness (RFC 3629) as an automaton over bytes.            *)
(* State <<n, lo, hi>>: n continuation bytes missing, the next one has to  *)
(* be in lo..hi.  <<-1, 0, 0>> is the rejecting state.                     *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt

U8Start == <<0, 0, 0>>
U8Bad   == <<-1, 0, 0>>
U8Step(q, b) ==
  CASE q[1] = -1 -> U8Bad
    [] q[1] = 0  ->
         (CASE b <= 127 -> U8Start
            [] b \in 194..223 -> <<1, 128, 191>>
            [] b = 224 -> <<2, 160, 191>>
            [] b \in 225..236 \cup 238..239 -> <<2, 128, 191>>
            [] b = 237 -> <<2, 128, 159>>
            [] b = 240 -> <<3, 144, 191>>
            [] b \in 241..243 -> <<3, 128, 191>>
            [] b = 244 -> <<3, 128, 143>>
            [] OTHER -> U8Bad)
    [] OTHER -> IF b < q[2] \/ b > q[3] THEN U8Bad
                ELSE IF q[1] = 1 THEN U8Start ELSE <<q[1] - 1, 128, 191>>
Utf8OK(s) == FoldLeft(U8Step, U8Start, s) = U8Start

\* Independent definition through code points (used to check the automaton).
U8Enc(c) ==
  CASE c < 128 -> <<c>>
    [] c \in 128..2047 -> <<192 + c \div 64, 128 + (c % 64)>>
    [] c \in 2048..65535 -> <<224 + c \div 4096, 128 + ((c \div 64) % 64), 128 + (c % 64)>>
    [] OTHER -> <<240 + c \div 262144, 128 + ((c \div 4096) % 64),
                  128 + ((c \div 64) % 64), 128 + (c % 64)>>
=============================================================================
