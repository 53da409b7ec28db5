------------------------------- MODULE Values -------------------------------
(* Random values, with their texts: shared by the generators.  Whatever is  *)
(* random takes an argument, if only a dummy: TLC evaluates a definition   *)
(* without parameters once and for all.                                    *)
EXTENDS Text
Pick(s) == s[RandomElement(1..Len(s))]
Edges == <<0, 1, 127, 128, 255>>
Byte(u) == IF RandomElement(0..1) = 0 THEN Pick(Edges) ELSE RandomElement(0..255)
(* 64-bit integers as little-endian bytes: extremes, small ones, any *)
I64(u) == TLCEval(LET s == RandomElement(0..5)  c == Pick(Edges) IN
               [x \in 1..8 |-> CASE s = 0 -> (IF x = 8 THEN 128 ELSE 0)
                                 [] s = 1 -> (IF x = 8 THEN 127 ELSE 255)
                                 [] s = 2 -> (IF x = 1 THEN c ELSE IF c > 100 THEN 255 ELSE 0)
                                 [] s = 3 -> (IF x = 1 THEN c ELSE 0)
                                 [] OTHER -> Byte(0)])
I64Text(b) == <<Dec(FromBytes(b))>>
Chars == <<9, 10, 13, 34, 39, 92, 32, 47, 58, 65, 122, 126, 127, 1, 27, 123, 125, 36, 37, 48, 57,
           128, 160, 233, 255, 2047, 2048, 8364, 8232, 55295, 57344, 65279, 65533, 65535, 65536, 128512, 1114111>>
Char(u) == LET r == RandomElement(0..3) IN IF r = 0 THEN RandomElement(32..126) ELSE IF r = 1 THEN RandomElement(161..1000)
                                        ELSE Pick(Chars)
TextLens == <<0, 1, 2, 3, 5, 8, 13>>
Txt(u) == TLCEval([x \in 1..Pick(TextLens) |-> Char(0)])
(* a double as a record: how to make it, and its text *)
Special == <<[d |-> "-0.0", t |-> <<"-0.0">>], [d |-> "inf", t |-> <<"inf">>], [d |-> "-inf", t |-> <<"-inf">>],
             [d |-> "NaN", t |-> <<"NaN">>], [d |-> "0.0", t |-> <<"0.0">>], [d |-> "0.1", t |-> <<"0.1">>],
             [d |-> "1.0", t |-> <<"1.0">>], [d |-> "9007199254740993", t |-> <<"9007199254740992.0">>],
             [d |-> "1e-7", t |-> <<"0.0000001">>], [d |-> "0.3", t |-> <<"0.3">>],
             [d |-> "4503599627370495.5", t |-> <<"4503599627370495.5">>],
             [d |-> "0.9999999999999999", t |-> <<"0.9999999999999999">>],
             [d |-> "1.0000000000000002", t |-> <<"1.0000000000000002">>]>>
Sgn(u) == IF RandomElement(0..1) = 0 THEN 1 ELSE -1
Digs(u) == TLCEval(LET n == RandomElement(1..15) IN
                [x \in 1..n |-> IF x = 1 \/ x = n THEN RandomElement(1..9) ELSE Pick(<<0, 0, 9, 1, 2, 3, 4, 5, 6, 7, 8>>)])
Decimal(u) == LET s == Sgn(0)  d == Digs(0)
               k == RandomElement(0..9)
               e == IF k < 3 /\ Len(d) < 15 THEN RandomElement(0..(15 - Len(d))) ELSE IF k < 9 THEN -RandomElement(1..20)
                    ELSE -RandomElement(20..290)
           IN  TLCEval([d |-> (IF s < 0 THEN "-" ELSE "") \o Digits(d) \o "e" \o ToString(e), t |-> DecimalText(s, d, e)])
Dyadic(u) == LET s == Sgn(0)  m == RandomElement(1..2147483647)  e == RandomElement(0..400)
              t == WholeText(s, Nat2N(m), e)
          IN  TLCEval([d |-> t[1] \o t[2], t |-> t])      \* exact digits: any correct parser finds the double
Double(u) == LET r == RandomElement(0..5) IN IF r = 0 THEN Pick(Special) ELSE IF r < 5 THEN Decimal(0) ELSE Dyadic(0)
=============================================================================
