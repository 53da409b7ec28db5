------------------------------- MODULE HeapGen -------------------------------
(***************************************************************************)
(* Random balanced histories over the heap, with what every step must      *)
(* show.  Ops and Kinds weigh what is done to what.                        *)
(***************************************************************************)
EXTENDS Heap
CONSTANTS Depth, Out, Kinds, Ops,
  Ending        \* "" or "alias": a last step that drives an alias count below zero
VARIABLES h, used, hist
Pick(s) == s[RandomElement(1..Len(s))]

KindsAll == <<"arr", "arr", "tup", "tup", "str", "big", "call", "call", "qarr">>
KindsArr == <<"arr">>
KindsArrTup == <<"arr", "arr", "tup">>
OpsCount == <<"new", "new", "ref+", "ref-", "ref-", "ref-", "al+", "al-", "copy", "copy", "set", "fill", "get", "relq", "cat", "calc", "lit">>
OpsData == <<"new", "new", "set", "set", "set", "set", "set", "fill", "fill", "get", "get", "copy", "copy", "cat", "cat", "slice", "slice",
             "slice", "al+", "al-", "ref-", "ref-", "ref+">>

Sizes == <<1, 1, 2, 3, 4, 8, 8, 16, 24>>
Lens == <<0, 1, 2, 3, 4, 5, 7, 9, 17>>
(* now and then something larger than a byte counts *)
Odd(u) == RandomElement(0..29) = 0
BigSizes == <<40, 255, 256, 300>>
BigLens == <<64, 65, 127, 128, 255, 256, 257, 300>>
HugeLens == <<1024, 1100, 2000, 4100, 5600, 6000>>
BigCounts == <<127, 128, 255, 256, 300, 1000, 65535, 65536, 70000>>
Rec(op, o, p, kind, es, i, v, k, f, x, d, dead) ==
  [op |-> op, o |-> o, p |-> p, kind |-> kind, es |-> es, i |-> i, v |-> v, k |-> k, f |-> f, x |-> x, d |-> d,
   dead |-> dead, al |-> IF o > 0 /\ o <= Len(h) THEN h[o].al ELSE 0]
Skip == /\ UNCHANGED <<h, used>>
        /\ hist' = Append(hist, Rec("skip", 0, 0, "", 0, 0, 0, 0, FALSE, 0, <<>>, FALSE))
Zeroed(n) == [x \in 1..n |-> 0]

New ==
  \E kind \in {Pick(Kinds)} : \E es \in {IF Odd(0) THEN Pick(BigSizes) ELSE Pick(Sizes)} : \E n \in {IF RandomElement(0..599) = 0 THEN Pick(HugeLens) ELSE IF Odd(0) THEN Pick(BigLens) ELSE Pick(Lens)} : \E v \in {RandomElement(1..127)} :
    LET n1 == IF kind = "qarr" THEN (IF n > 200 THEN 66 ELSE n % 4) ELSE IF kind = "call" THEN 1 ELSE IF kind = "big" THEN 1 + (n % 9) ELSE n
        d == CASE kind = "qarr" -> Lowest(used, n1)
               [] kind \in {"str", "big"} -> [x \in 1..n1 |-> ((v + 37 * x) % 127) + 1]
               [] OTHER -> Zeroed(n1)
        e == IF kind = "arr" THEN es ELSE IF kind = "qarr" THEN 8 ELSE 1
    IN  /\ h' = Add(h, Obj(kind, e, d))
        /\ used' = used \cup (IF kind = "qarr" THEN Range(d) ELSE {})
        /\ hist' = Append(hist, Rec("new", 0, 0, kind, e, n1, v, 0, FALSE, Len(h) + 1, d, FALSE))

RefUp(o) == \E k \in {IF Odd(0) THEN Pick(BigCounts) ELSE RandomElement(1..3)} :
  /\ h' = Ref(h, o, k) /\ UNCHANGED used
  /\ hist' = Append(hist, Rec("ref", o, 0, "", 0, 0, 0, k, FALSE, 0, h[o].d, FALSE))
RefDown(o) == \E k \in {RandomElement(1..h[o].rc)} :
  (* the qubits of a qubit array are released with its last reference, by relq *)
  IF h[o].kind = "qarr" /\ k = h[o].rc THEN Skip
  ELSE /\ h' = Ref(h, o, -k) /\ UNCHANGED used
       /\ hist' = Append(hist, Rec("ref", o, 0, "", 0, 0, 0, -k, FALSE, 0, h[o].d, k = h[o].rc))
AlUp(o) == IF h[o].kind \notin Aliased THEN Skip ELSE \E k \in {IF Odd(0) THEN Pick(BigCounts) ELSE RandomElement(0..2)} :
  /\ h' = Alias(h, o, k) /\ UNCHANGED used
  /\ hist' = Append(hist, Rec("al", o, 0, "", 0, 0, 0, k, FALSE, 0, h[o].d, FALSE))
AlDown(o) == IF h[o].al = 0 THEN Skip ELSE \E k \in {RandomElement(1..h[o].al)} :
  /\ h' = Alias(h, o, -k) /\ UNCHANGED used
  /\ hist' = Append(hist, Rec("al", o, 0, "", 0, 0, 0, -k, FALSE, 0, h[o].d, FALSE))
DoCopy(o) == IF h[o].kind \in {"str", "big", "qarr"} THEN Skip ELSE \E f \in {RandomElement(BOOLEAN)} :
  /\ h' = Copy(h, o, f) /\ UNCHANGED used
  /\ hist' = Append(hist, Rec("copy", o, 0, h[o].kind, h[o].es, 0, 0, 0, f,
                              IF FreshCopy(h, o, f) THEN Len(h) + 1 ELSE o, h[o].d, FALSE))
DoSet(o) == IF h[o].kind \notin {"arr", "tup", "call"} \/ h[o].d = <<>> THEN Skip
  ELSE \E i \in {RandomElement(1..Len(h[o].d))} : \E v0 \in {RandomElement(0..255)} :
  LET v == IF h[o].kind = "call" THEN 1 - h[o].d[1] ELSE v0 IN
  /\ h' = Set(h, o, i, v) /\ UNCHANGED used
  /\ hist' = Append(hist, Rec("set", o, 0, h[o].kind, h[o].es, i, v, 0, FALSE, 0, h'[o].d, FALSE))
(* every element or byte at once *)
DoFill(o) == IF h[o].kind \notin {"arr", "tup"} THEN Skip
  ELSE \E v \in {RandomElement(0..255)} :
  LET d == [x \in 1..Len(h[o].d) |-> (v + 37 * x) % 256] IN
  /\ h' = [h EXCEPT ![o].d = d] /\ UNCHANGED used
  /\ hist' = Append(hist, Rec("fill", o, 0, h[o].kind, h[o].es, 0, v, 0, FALSE, 0, d, FALSE))
DoGet(o) == /\ UNCHANGED <<h, used>>
            /\ hist' = Append(hist, Rec("get", o, 0, h[o].kind, h[o].es, 0, 0, 0, FALSE, 0, h[o].d, FALSE))
Cat(o, p) == IF h[o].kind \notin {"arr", "str"} \/ h[p].kind # h[o].kind \/ h[p].es # h[o].es THEN Skip
  ELSE /\ h' = Add(h, Obj(h[o].kind, h[o].es, h[o].d \o h[p].d)) /\ UNCHANGED used
       /\ hist' = Append(hist, Rec("cat", o, p, h[o].kind, h[o].es, 0, 0, 0, FALSE, Len(h) + 1, h[o].d \o h[p].d, FALSE))
DoSlice(o) == IF h[o].kind # "arr" THEN Skip
  ELSE LET n == Len(h[o].d) IN
       \E a \in {RandomElement(-1..n)} : \E b \in {RandomElement(-1..n)} : \E s0 \in {RandomElement(1..4)} :
       \E down \in {RandomElement(BOOLEAN)} :
       LET s == IF down THEN -s0 ELSE s0 IN
       IF ~InRange(n, a, s, b) THEN Skip
       ELSE /\ h' = Add(h, Obj("arr", h[o].es, Slice(h[o].d, a, s, b))) /\ UNCHANGED used
            /\ hist' = Append(hist, Rec("slice", o, 0, "arr", h[o].es, a, b, s, FALSE, Len(h) + 1, Slice(h[o].d, a, s, b), FALSE))
(* A big integer, or a string, by an operation that gives back what it is  *)
(* given (v says which): a number of its own all the same.                 *)
Calc(o) == IF h[o].kind # "big" THEN Skip
  ELSE \E v \in {RandomElement(1..9)} :
       /\ h' = Add(h, Obj("big", 1, h[o].d)) /\ UNCHANGED used
       /\ hist' = Append(hist, Rec("calc", o, 0, "big", 1, 0, v, 0, FALSE, Len(h) + 1, h[o].d, FALSE))
Texts == << <<116, 114, 117, 101>>, <<102, 97, 108, 115, 101>>, <<80, 97, 117, 108, 105, 73>>, <<80, 97, 117, 108, 105, 88>>,
            <<80, 97, 117, 108, 105, 90>>, <<80, 97, 117, 108, 105, 89>>, <<48>>, <<45, 49>>, <<48, 46, 48>>, <<48, 46, 46, 48>>,
            <<79, 110, 101>>, <<48>> >>
Lit == \E v \in {RandomElement(1..Len(Texts))} :
       /\ h' = Add(h, Obj("str", 1, Texts[v])) /\ UNCHANGED used
       /\ hist' = Append(hist, Rec("lit", 0, 0, "str", 1, 0, v, 0, FALSE, Len(h) + 1, Texts[v], FALSE))
RelQ(o) == IF h[o].kind # "qarr" \/ ~(Range(h[o].d) \subseteq used) THEN Skip
  ELSE /\ h' = [Ref(h, o, -1) EXCEPT ![o].kind = "ids"] /\ used' = used \ Range(h[o].d)
       /\ hist' = Append(hist, Rec("relq", o, 0, "qarr", 8, 0, 0, -1, FALSE, 0, h[o].d, h[o].rc = 1))

Last == Ending # "" /\ Len(hist) = Depth - 1
Init == h = <<>> /\ used = {} /\ hist = <<>>
Next ==
  /\ Len(hist) < Depth
  /\ IF Live(h) = {} THEN New
     ELSE IF Last THEN
       \E o \in {RandomElement(Live(h))} :
         IF h[o].kind \notin Aliased THEN Skip
         ELSE \E k \in {RandomElement(1..2)} :
           /\ UNCHANGED <<h, used>>
           /\ hist' = Append(hist, Rec("doom", o, 0, h[o].kind, h[o].es, 0, 0, -(h[o].al + k), FALSE, 0, <<>>, FALSE))
     ELSE \E op \in {Pick(Ops)} : \E o \in {RandomElement(Live(h))} : \E p \in {RandomElement(Live(h))} :
       CASE op = "new" -> New
         [] op = "ref+" -> RefUp(o)
         [] op = "ref-" -> RefDown(o)
         [] op = "al+" -> AlUp(o)
         [] op = "al-" -> AlDown(o)
         [] op = "copy" -> DoCopy(o)
         [] op = "set" -> DoSet(o)
         [] op = "get" -> DoGet(o)
         [] op = "fill" -> DoFill(o)
         [] op = "calc" -> Calc(o)
         [] op = "lit" -> IF "str" \in Range(Kinds) THEN Lit ELSE Skip
         [] op = "cat" -> Cat(o, p)
         [] op = "slice" -> DoSlice(o)
         [] op = "relq" -> RelQ(o)
Spec == Init /\ [][Next]_<<h, used, hist>>
Emit == Len(hist) = Depth => CSVWrite("%1$s", <<ToJson(hist)>>, Out)
Sane == \A o \in 1..Len(h) : h[o].rc >= 0 /\ h[o].al >= 0
(* qubit arrays hold distinct qubits, and no two share one *)
Distinct == \A o, p \in Live(h) : h[o].kind = "qarr" /\ h[p].kind = "qarr" =>
              /\ Cardinality(Range(h[o].d)) = Len(h[o].d)
              /\ o # p => Range(h[o].d) \cap Range(h[p].d) = {}
=============================================================================
