------------------------------ MODULE SeedsGen ------------------------------
(* Random scripts for Seeds: junk before and after seeding, programs run   *)
(* with or without being observed, on this or another thread; programs run *)
(* in a process of their own that seeds nothing.                           *)
EXTENDS Integers, Sequences, TLC, Json, CSV
CONSTANTS Depth, Out
VARIABLES hist
Pick(seq) == seq[RandomElement(1..Len(seq))]
Names == <<"seed", "run", "run", "run", "run", "junk", "blank", "fresh", "seed">>
Init == hist = <<>>
Next ==
  /\ Len(hist) < Depth
  /\ \E n \in {IF Len(hist) = Depth \div 5 THEN "seed" ELSE Pick(Names)} :
     \E p \in {IF n = "seed" THEN Pick(<<0, 1, 2, 0, 1, 2, 3, 4, 5, 6, 7>>) ELSE IF n = "fresh" THEN 1 ELSE IF n = "run" THEN Pick(<<1, 1, 2, 3, 4, 5, 6>>) ELSE Pick(<<1, 2, 3>>)} :
     \E v \in {Pick(IF n = "seed" THEN <<0, 1>> ELSE <<0, 0, 1>>)} :
       hist' = Append(hist, [op |-> n, p |-> p, obs |-> v])
Spec == Init /\ [][Next]_hist
Emit == Len(hist) = Depth => CSVWrite("%1$s", <<ToJson(hist)>>, Out)
=============================================================================
