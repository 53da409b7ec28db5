------------------------------- MODULE DblGen -------------------------------
(* Random requests for doubles: a class and a binary or decimal exponent.  *)
EXTENDS Integers, Sequences, TLC, CSV, Json
CONSTANTS Depth, Out
VARIABLE hist
Pick(s) == s[RandomElement(1..Len(s))]
Classes == <<"bits", "bits", "unit", "unit", "int", "pow2", "pow10", "nearpow10", "sub", "half", "dec">>
Init == hist = <<>>
Next == /\ Len(hist) < Depth
        /\ \E c \in {Pick(Classes)} : \E e \in {RandomElement(-300..300)} : \E f \in {RandomElement(-22..22)} :
             hist' = Append(hist, [c |-> c, e |-> e, f |-> f])
Spec == Init /\ [][Next]_hist
Emit == Len(hist) = Depth => CSVWrite("%1$s", <<ToJson(hist)>>, Out)
=============================================================================
