------------------------------- MODULE StrGen -------------------------------
(***************************************************************************)
(* Random histories over strings: created from bytes, from values of every *)
(* type and by concatenation; compared, measured and read back.            *)
(***************************************************************************)
EXTENDS Values, CSV, Json
CONSTANTS Depth, Out
VARIABLES strs, hist
Ops == <<"create", "create", "raw", "cat", "cat", "cat", "eq", "eq", "eqsame", "twin", "twin", "more", "less", "less", "eqlast", "eqlast", "pair", "pair", "int", "int", "dbl", "dbl", "dbl", "dbl", "bool", "pauli",
         "res", "range", "range", "qubit", "big", "big">>
RawLens == <<0, 1, 2, 5, 30>>
LongLens == <<127, 128, 255, 256, 257, 1024>>
Huge(u) == TLCEval([x \in 1..Pick(<<4, 33, 65, 66, 80>>) |-> IF RandomElement(0..20) = 0 THEN RandomElement(1..255) ELSE Kilo])
Raw(u) == IF RandomElement(0..249) = 0 THEN Huge(0) ELSE TLCEval([x \in 1..(IF RandomElement(0..19) = 0 THEN Pick(LongLens) ELSE Pick(RawLens)) |-> RandomElement(1..255)])
BigLens == <<1, 3, 8, 9, 20, 40>>
BigBytes(u) == TLCEval([x \in 1..Pick(BigLens) |-> Byte(0)])
E(op, a, b, in, d, v, t) == [op |-> op, a |-> a, b |-> b, in |-> in, d |-> d, v |-> v, t |-> t]
New(e) == strs' = Append(strs, e.t) /\ hist' = Append(hist, e)
Is(e) == strs' = strs /\ hist' = Append(hist, e)
Init == strs = <<>> /\ hist = <<>>
Next ==
  /\ Len(hist) < Depth
  /\ \E op \in {Pick(Ops)} : \E a \in {RandomElement(1..(Len(strs) + 1))} : \E b \in {RandomElement(1..(Len(strs) + 1))} :
     LET have == a <= Len(strs) /\ b <= Len(strs) IN
     CASE op = "cat" /\ have -> New(E("cat", a, b, <<>>, "", FALSE, strs[a] \o strs[b]))
       [] op = "eq" /\ have -> Is(E("eq", a, b, <<>>, "", FALSE, <<>>))
       [] op = "eqsame" /\ have -> Is(E("eqsame", a, a, <<>>, "", TRUE, <<>>))
       (* another string of the same bytes, or of one more *)
       [] op = "twin" /\ have -> New(E("twin", a, 0, <<>>, "", FALSE, strs[a]))
       [] op = "more" /\ have -> \E c \in {RandomElement(1..255)} : New(E("twin", a, 0, <<>>, "", FALSE, Append(strs[a], c)))
       (* one that differs in one byte *)
       [] op = "less" /\ have /\ strs[a] # <<>> -> \E k \in {RandomElement(1..Len(strs[a]))} : \E c \in {RandomElement(1..255)} :
             New(E("twin", a, 0, <<>>, "", FALSE, [strs[a] EXCEPT ![k] = c]))
       [] op = "eqlast" /\ Len(strs) > 1 -> Is(E("eq", Len(strs) - 1, Len(strs), <<>>, "", FALSE, <<>>))
       [] op = "raw" -> \E s \in {Raw(0)} : New(E("create", 0, 0, s, "", FALSE, s))
       (* two strings at once, the same but for one byte, of any value (so possibly not the text of any code point) *)
       [] op = "pair" -> \E s \in {Raw(0)} : \E k \in {RandomElement(0..Len(s))} : \E c \in {RandomElement(128..255)} :
             LET s2 == IF k = 0 THEN s ELSE [s EXCEPT ![k] = c]  n == Len(strs) IN
             /\ strs' = strs \o <<s, s2>>
             /\ hist' = hist \o <<E("create", 0, 0, s, "", FALSE, s), E("create", 0, 0, s2, "", FALSE, s2)>>
                             \o (IF Len(hist) + 3 <= Depth THEN <<E("eq", n + 1, n + 2, <<>>, "", FALSE, <<>>)>> ELSE <<>>)
       [] op = "int" -> \E x \in {I64(0)} : New(E("int", 0, 0, x, "", FALSE, I64Text(x)))
       [] op = "dbl" -> \E x \in {Double(0)} : New(E("dbl", 0, 0, <<>>, x.d, FALSE, x.t))
       [] op = "bool" -> \E x \in {RandomElement(BOOLEAN)} : New(E("bool", 0, 0, <<>>, "", x, BoolText(x)))
       [] op = "pauli" -> \E x \in {RandomElement(0..3)} : New(E("pauli", x, 0, <<>>, "", FALSE, PauliText(x)))
       [] op = "res" -> \E x \in {RandomElement(0..1)} : New(E("res", x, 0, <<>>, "", FALSE, ResultText(x)))
       [] op = "range" -> \E x \in {I64(0)} : \E z \in {I64(0)} : \E y \in {IF RandomElement(0..2) = 0 THEN <<1, 0, 0, 0, 0, 0, 0, 0>> ELSE I64(0)} :
                            New(E("range", 0, 0, x \o y \o z, "", FALSE, RangeText(FromBytes(x), FromBytes(y), FromBytes(z))))
       [] op = "qubit" -> \E x \in {RandomElement(0..2000000000)} : New(E("qubit", x, 0, <<>>, "", FALSE, <<ToString(x)>>))
       [] op = "big" -> \E x \in {BigBytes(0)} : New(E("big", 0, 0, x, "", FALSE, I64Text(x)))
       [] OTHER -> \E s \in {Txt(0)} : New(E("create", 0, 0, Bytes(s), "", FALSE, Bytes(s)))
Spec == Init /\ [][Next]_<<strs, hist>>
Emit == Len(hist) >= Depth => CSVWrite("%1$s", <<ToJson(hist)>>, Out)
=============================================================================
