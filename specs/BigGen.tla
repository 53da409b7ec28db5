-------------------------------- MODULE BigGen --------------------------------
(***************************************************************************)
(* Random programs over a growing list of big integers: each step creates  *)
(* one from a machine integer or bytes, or applies an operation to earlier *)
(* ones, which must stay as they were; every report is exact.              *)
(***************************************************************************)
EXTENDS Big, CSV, Json
CONSTANTS Depth, Out, MaxBits
VARIABLES regs, hist
Pick(s) == s[RandomElement(1..Len(s))]
Ops == <<"add", "sub", "mul", "mul", "div", "mod", "div", "and", "or", "xor", "pow", "shl", "shr", "shr", "neg", "not",
         "eq", "gt", "ge", "ge", "text", "i64", "i64", "bytes", "bytes", "copy">>
Edges == <<0, 1, 127, 128, 255>>
Byte(u) == IF RandomElement(0..1) = 0 THEN Pick(Edges) ELSE RandomElement(0..255)
Lens == <<0, 1, 1, 2, 3, 4, 7, 8, 8, 9, 15, 16, 17, 20, 24, 32, 33, 40>>
(* arrays of bytes: random, all the same, or one edge in a sea of zeros *)
Rnd(u) == TLCEval(LET n == Pick(Lens)  s == RandomElement(0..3)  c == Pick(Edges)  j == RandomElement(1..(n + 1)) IN
               [x \in 1..n |-> IF s = 0 THEN c ELSE IF s = 1 THEN (IF x = j THEN c ELSE IF x > j THEN 255 ELSE 0) ELSE Byte(0)])
I64(u) == TLCEval(LET s == RandomElement(0..4)  c == Pick(Edges) IN
               [x \in 1..8 |-> CASE s = 0 -> (IF x = 8 THEN 128 ELSE 0)
                                 [] s = 1 -> (IF x = 8 THEN 127 ELSE 255)
                                 [] s = 2 -> (IF x = 1 THEN c ELSE IF c > 100 THEN 255 ELSE 0)
                                 [] OTHER -> Byte(0)])
Amounts == <<0, 1, 7, 8, 9, 31, 32, 33, 63, 64, 65, 127, 128, 200, 255, 256, 257, 300, 511, 513, 1000, 1023, 1024, 1025, 2048,
             4095, 5000, 65536, 65540, 100000, 2147483647>>
(* Exponents: small ones, and large ones where the power stays in bounds.  *)
Exponents == <<0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 16, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 300, 1000, 65535, 65536,
               65537, 1000000, 2147483646, 2147483647>>
Init == regs = <<>> /\ hist = <<>>
Bits(a) == 15 * Len(a.m)
Units(a) == a.m \in {<<>>, <<1>>}
Small(op, a, b, k) == CASE op = "mul" -> Bits(a) + Bits(b) <= MaxBits
                        [] op = "pow" -> IF Units(a) THEN TRUE ELSE k <= MaxBits /\ BitsN(a.m) * k <= MaxBits
                        [] op = "shl" -> a.s = 0 \/ (k <= MaxBits /\ Bits(a) + k <= MaxBits)
                        [] op \in Dividing -> b.s # 0
                        [] OTHER -> TRUE
Rec(op, a, b, k, in, o, v, t) == [op |-> op, a |-> a, b |-> b, k |-> k, in |-> in, o |-> o, v |-> v, t |-> t]
Next ==
  /\ Len(hist) < Depth
  /\ \E o0 \in {Pick(Ops)} : \E by \in {IF o0 = "i64" THEN I64(0) ELSE Rnd(0)} :
     \E a \in {RandomElement(1..(Len(regs) + 1))} : \E b \in {RandomElement(1..(Len(regs) + 1))} :
     \E k0 \in {Pick(Amounts)} : \E p \in {Pick(Exponents)} :
       LET none == a > Len(regs) \/ b > Len(regs)
           k == IF o0 = "pow" THEN p ELSE k0
           o1 == IF none /\ o0 \notin {"i64", "bytes"} THEN "bytes" ELSE o0
           op == IF o1 \notin (Binary \cup Dividing \cup Counted) \/ Small(o1, regs[a], regs[b], k) THEN o1 ELSE "ge"
           x == IF none THEN Zero ELSE regs[a]
           y == IF none THEN Zero ELSE regs[b]
           v == IF op \in {"i64", "bytes"} THEN FromBytes(by) ELSE IF op \in Tests \cup {"text"} THEN x ELSE Value(op, x, y, k)
       IN  /\ regs' = IF op \in Tests \cup {"text"} THEN regs ELSE Append(regs, v)
           /\ hist' = Append(hist, Rec(op, a, b, k, IF op \in {"i64", "bytes"} THEN by ELSE <<>>,
                                       IF op \in Tests \cup {"text"} THEN <<>> ELSE ToBytes(v),
                                       IF op \in Tests THEN Test(op, x, y) ELSE FALSE,
                                       IF op = "text" THEN Dec(x) ELSE ""))
Spec == Init /\ [][Next]_<<regs, hist>>
Emit == Len(hist) = Depth => CSVWrite("%1$s", <<ToJson(hist)>>, Out)
Lawful == Len(regs) >= 2 => Laws(regs[Len(regs)], regs[Len(regs) - 1], Len(hist))
=============================================================================
