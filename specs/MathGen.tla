------------------------------ MODULE MathGen ------------------------------
(* Random requests for calls of mathematical functions: a function and classes of arguments. *)
EXTENDS Integers, Sequences, TLC, CSV, Json
CONSTANTS Depth, Out
VARIABLE hist
Pick(s) == s[RandomElement(1..Len(s))]
Fs == <<"sin", "cos", "tan", "sinh", "cosh", "tanh", "arcsin", "arccos", "arctan", "sqrt", "log", "arctan2", "arctan2", "arctan2",
        "rem", "rem", "rem", "rem", "ints", "ints", "doubles", "tests">>
Classes == <<"bits", "unit", "unit", "one", "one", "big", "pihalf", "pihalf", "nearone", "near1", "near1", "near1", "tiny", "sub", "int", "edge", "edge", "huge",
             "hyper", "hyper">>
Pairs == <<"any", "any", "same", "same", "tie", "tie", "tiebit", "edge", "far", "neg">>
Init == hist = <<>>
Next == /\ Len(hist) < Depth
        /\ \E f \in {Pick(Fs)} : \E c \in {Pick(Classes)} : \E d \in {Pick(Classes)} : \E p \in {Pick(Pairs)} : \E e \in {RandomElement(-300..300)} :
             hist' = Append(hist, [f |-> f, c |-> c, d |-> d, p |-> p, e |-> e])
Spec == Init /\ [][Next]_hist
Emit == Len(hist) = Depth => CSVWrite("%1$s", <<ToJson(hist)>>, Out)
=============================================================================
