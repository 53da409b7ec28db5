------------------------------ MODULE IntsSame ------------------------------
(***************************************************************************)
(* TLC computes with the natural numbers of Ints by a Java class; Plain is *)
(* a copy of Ints that it evaluates as written.  The two agree.            *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Ints
VARIABLES a, b, n, d
D == INSTANCE Plain
Limbs == <<0, 0, 1, 2, 32767, 32766, 16384>>
Some(u) == LET k == RandomElement(0..9) IN Trim(TLCEval(
         [x \in 1..k |-> IF RandomElement(0..1) = 0 THEN Limbs[RandomElement(1..7)] ELSE RandomElement(0..32767)]))
Init == a = <<>> /\ b = <<>> /\ n = 0 /\ d = 1
Next == \E x \in {Some(0)} : \E y \in {Some(0)} : \E k \in {IF RandomElement(0..3) = 0 THEN RandomElement(0..1100) ELSE RandomElement(0..70)} : \E s \in {RandomElement(1..32767)} :
          a' = x /\ b' = (IF RandomElement(0..3) = 0 THEN x ELSE y) /\ n' = k /\ d' = s
Spec == Init /\ [][Next]_<<a, b, n, d>>
Same == /\ AddN(a, b) = D!AddN(a, b) /\ CmpN(a, b) = D!CmpN(a, b) /\ MulN(a, b) = D!MulN(a, b)
        /\ CmpN(a, b) >= 0 => SubN(a, b) = D!SubN(a, b)
        /\ b # <<>> => DivN(a, b) = D!DivN(a, b)
        /\ MulSmall(a, d) = D!MulSmall(a, d) /\ DivSmall(a, d) = D!DivSmall(a, d)
        /\ ShlN(a, n) = D!ShlN(a, n) /\ ShrN(a, n) = D!ShrN(a, n) /\ PowN(a, n % 8) = D!PowN(a, n % 8)
        /\ PowN(Trim(SubSeq(a, 1, IF a = <<>> THEN 0 ELSE 1)), n % 70) = D!PowN(Trim(SubSeq(a, 1, IF a = <<>> THEN 0 ELSE 1)), n % 70)
        /\ BitsN(a) = D!BitsN(a) /\ DecN(a) = D!DecN(a)
=============================================================================
