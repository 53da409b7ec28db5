------------------------------ MODULE BigShapes ------------------------------
(* Random requests for operations on operands of given lengths and patterns *)
(* of bytes, to be carried out and recorded in the real runtime.            *)
EXTENDS Integers, Sequences, TLC, CSV, Json
CONSTANTS Depth, Out, Lengths
VARIABLE hist
Pick(s) == s[RandomElement(1..Len(s))]
Short == <<1, 2, 4, 8, 8, 9, 12, 16, 16, 17, 24, 31, 32, 33>>
Long == <<1, 8, 40, 64, 64, 65, 96, 128>>
Larger == <<1, 8, 128, 255, 256, 257, 258, 300, 512, 520>>
Huge == <<8, 880, 1024, 1500>>
Ops == <<"add", "sub", "mul", "div", "mod", "div", "mod", "and", "or", "xor", "pow", "shl", "shr", "neg", "not", "eq",
         "gt", "ge", "text", "copy">>
Patterns == <<"random", "random", "random", "zeros", "ones", "edge", "sparse", "near">>
Amounts == <<0, 1, 2, 3, 4, 5, 7, 8, 9, 31, 32, 33, 63, 64, 65, 127, 128, 200, 255, 256, 257, 300, 511, 512, 513, 700, 1000, 1023,
             1024, 1025, 2000, 4096>>
Exponents == <<0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 16, 31, 32, 33, 50, 63, 64, 65, 66, 100, 127, 128, 200, 255, 256, 257, 300>>
Init == hist = <<>>
Next == /\ Len(hist) < Depth
        /\ \E o \in {Pick(Ops)} : \E la \in {Pick(Lengths)} : \E lb \in {Pick(Lengths)} : \E pa \in {Pick(Patterns)} :
           \E pb \in {Pick(Patterns)} : \E k \in {Pick(Amounts)} : \E x \in {Pick(Exponents)} :
             hist' = Append(hist, [op |-> o, la |-> IF o = "pow" THEN (IF x > 100 THEN 1 ELSE IF x > 10 THEN 1 + (la % 3) ELSE 1 + (la % 9)) ELSE la, lb |-> lb, pa |-> pa, pb |-> pb,
                                   k |-> IF o = "pow" THEN x ELSE k])
Spec == Init /\ [][Next]_hist
Emit == Len(hist) = Depth => CSVWrite("%1$s", <<ToJson(hist)>>, Out)
=============================================================================
