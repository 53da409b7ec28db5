------------------------------- MODULE Slices -------------------------------
(***************************************************************************)
(* Every slice of every short array: all starts, steps and ends, in range  *)
(* or empty, huge ones included (a number of a million or more stands for  *)
(* one near the largest representable).                                    *)
(***************************************************************************)
EXTENDS Heap
CONSTANTS Out, MaxLen
Huge == {-2000000, -1000000, 1000000, 2000000}
VARIABLES n, c
Init == /\ n \in 0..MaxLen
        /\ c \in [a : (-2..(MaxLen + 1)) \cup Huge, s : ((-(MaxLen + 1))..(MaxLen + 1)) \cup Huge, b : (-2..(MaxLen + 1)) \cup Huge]
        /\ c.s # 0
        /\ InRange(n, c.a, c.s, c.b)
Next == FALSE /\ UNCHANGED <<n, c>>
Spec == Init /\ [][Next]_<<n, c>>
Emit == CSVWrite("%1$s", <<ToJson(<<[n |-> n, a |-> c.a, s |-> c.s, b |-> c.b,
                                     d |-> Slice([k \in 1..n |-> k], c.a, c.s, c.b)]>>)>>, Out)
(* slicing by the same range upwards and downwards gives reversed elements when the ends are hit *)
Mirror == LET d == [k \in 1..n |-> k]  x == Slice(d, c.a, c.s, c.b) IN
          \A k \in 1..(Len(x) - 1) : x[k + 1] - x[k] = c.s
=============================================================================
