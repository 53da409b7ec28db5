-------------------------------- MODULE Text --------------------------------
(***************************************************************************)
(* The texts of values.  A text is a sequence of pieces, each a string or  *)
(* the number of one byte.                                                 *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, Ints, TLC

(* ---- Unicode: code points to UTF-8, and escaped onto one line ---- *)
(* One number beyond the code points stands for 1024 letters.            *)
Two(s) == s \o s
Kilo == Two(Two(Two(Two(Two(Two(Two("yyyyyyyy")))))))
KiloCp == 2000000
Utf8(c) ==
  IF c = KiloCp THEN <<Kilo>>
  ELSE IF c < 128 THEN <<c>>
  ELSE IF c < 2048 THEN <<192 + c \div 64, 128 + (c % 64)>>
  ELSE IF c < 65536 THEN <<224 + c \div 4096, 128 + ((c \div 64) % 64), 128 + (c % 64)>>
  ELSE <<240 + c \div 262144, 128 + ((c \div 4096) % 64), 128 + ((c \div 64) % 64), 128 + (c % 64)>>
Bytes(cps) == FoldLeft(LAMBDA s, c : s \o Utf8(c), <<>>, cps)
HexDigit == <<"0", "1", "2", "3", "4", "5", "6", "7", "8", "9", "a", "b", "c", "d", "e", "f">>
RECURSIVE Hex(_)
Hex(n) == IF n < 16 THEN HexDigit[n + 1] ELSE Hex(n \div 16) \o HexDigit[(n % 16) + 1]
Escape1(c) ==
  CASE c = 9 -> "\\t"
    [] c = 10 -> "\\n"
    [] c = 13 -> "\\r"
    [] c = 34 -> "\\\""
    [] c = 39 -> "\\'"
    [] c = 92 -> "\\\\"
    [] c >= 32 /\ c <= 126 -> c
    [] c = KiloCp -> Kilo
    [] OTHER -> "\\u{" \o Hex(c) \o "}"
Escape(cps) == [k \in 1..Len(cps) |-> Escape1(cps[k])]

(* ---- small values ---- *)
BoolText(b) == <<IF b THEN "true" ELSE "false">>
PauliText(p) == <<CASE p = 0 -> "PauliI" [] p = 1 -> "PauliX" [] p = 2 -> "PauliZ" [] p = 3 -> "PauliY">>
ResultText(r) == <<IF r = 1 THEN "One" ELSE "Zero">>
RangeText(a, s, b) == <<Dec(a), "..">> \o (IF s = One THEN <<>> ELSE <<Dec(s), "..">>) \o <<Dec(b)>>

(* ---- doubles ---- *)
(* sign (-1, 1), a natural m and its exponent: neg * m * 2^e, e >= 0       *)
WholeText(s, m, e) == <<IF s < 0 THEN "-" ELSE "", DecN(ShlN(m, e)), ".0">>
(* decimal digits d (d[1] the most significant, the last one not 0 unless it is the only one) times 10^e *)
Digits(d) == FoldLeft(LAMBDA t, x : t \o ToString(x), "", d)
DecimalText(s, d, e) ==
  LET n == Len(d)
      sign == IF s < 0 THEN "-" ELSE ""
  IN  IF e >= 0 THEN <<sign, Digits(d), IF d = <<0>> THEN "" ELSE ZerosText(e), ".0">>
      ELSE IF n + e > 0 THEN <<sign, Digits(SubSeq(d, 1, n + e)), ".", Digits(SubSeq(d, n + e + 1, n))>>
      ELSE <<sign, "0.", ZerosText(-(n + e)), Digits(d)>>
=============================================================================
