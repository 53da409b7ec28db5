------------------------------ MODULE SlotsGen ------------------------------
(* Random behaviours of Slots, written out with the reports to expect.     *)
EXTENDS Slots
CONSTANTS Depth, Out,
  Known     \* only operations with one possible outcome (then the reports are known)
VARIABLES st, hist
Pick(seq) == seq[RandomElement(1..Len(seq))]
Names == <<"x", "x", "h", "z", "cx", "bell", "swap", "mz", "mz", "mrz", "m", "rst", "isz", "rd", "rd", "rdq",
           "wr0", "wr1", "rec", "rec", "dump", "init", "x", "mz", "rd", "cx">>
Init == st = Blank /\ hist = <<>>
Next ==
  /\ Len(hist) < Depth
  /\ \E n \in {Pick(Names)} : \E a \in {Pick(QIds)} : \E b0 \in {Pick(QIds)} : \E c \in {Pick(RIds)} :
     \E e \in {[op |-> n, a |-> a, b |-> IF n \in {"cx", "bell", "swap"} THEN b0 ELSE c]} :
     IF Enabled(st, e) /\ (Known => Cardinality(Outcomes(st, e)) = 1)
     THEN \E o \in {RandomElement(Outcomes(st, e))} :
            /\ st' = o.s
            /\ hist' = Append(hist, [op |-> e.op, a |-> e.a, b |-> e.b, v |-> o.v])
     ELSE st' = st /\ hist' = Append(hist, [op |-> "skip", a |-> 0, b |-> 0, v |-> None])
Spec == Init /\ [][Next]_<<st, hist>>
Emit == Len(hist) = Depth => CSVWrite("%1$s", <<ToJson(hist)>>, Out)
Paired == \A x \in Q : st.p[st.p[x]] = x
=============================================================================
