----------------------------- MODULE MultiTrace -----------------------------
(***************************************************************************)
(* Recordings of simulations with seeded random outcomes: each program     *)
(* run alone, then all together, interleaved or at once.  What a           *)
(* simulation reports is a function of its own program alone.              *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
CONSTANT TraceFile
Log == ndJsonDeserialize(TraceFile)
VARIABLES i, memo, ok
Init == i = 1 /\ memo = << >> /\ ok = TRUE
Next ==
  /\ i <= Len(Log) /\ i' = i + 1
  /\ LET e == Log[i]
         k == <<e.c, e.n>>
         r == <<e.op, e.v, e.t>>
     IN  IF e.op = "start" THEN memo' = << >> /\ ok' = TRUE
         ELSE IF k \in DOMAIN memo THEN ok' = (memo[k] = r) /\ UNCHANGED memo
         ELSE ok' = (e.run = 0) /\ memo' = (k :> r) @@ memo
Spec == Init /\ [][Next]_<<i, memo, ok>>
Explained == ok
=============================================================================
