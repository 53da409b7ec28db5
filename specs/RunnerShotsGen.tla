--------------------------- MODULE RunnerShotsGen ---------------------------
(* Scripts for RunnerShots: which program, in what form, seeded or not, and *)
(* for how many shots.                                                      *)
EXTENDS Integers, Sequences, TLC, Json, CSV
CONSTANTS Depth, Out
VARIABLE hist
Pick(seq) == seq[RandomElement(1..Len(seq))]
Forms == <<"ll", "bc", "bcll", "cli-ll", "cli-bc", "bytes", "bcbytes", "bitcode", "input", "cli-stdin", "cli-dash">>
Init == hist = <<>>
Next ==
  /\ Len(hist) < Depth
  /\ \E p \in {RandomElement(0..2)} : \E f \in {Pick(Forms)} : \E s \in {Pick(<<-1, 0, 0, 1, 1, 2, 3, 4, 5, 6, 7>>)} :
     \E n \in {Pick(<<0, 1, 2, 3, 40, 70, 100>>)} : \E y \in {RandomElement(0..7)} :
       hist' = Append(hist, [p |-> p, form |-> f, seed |-> s, shots |-> n, style |-> y])
Spec == Init /\ [][Next]_hist
Emit == Len(hist) = Depth => CSVWrite("%1$s", <<ToJson(hist)>>, Out)
=============================================================================
