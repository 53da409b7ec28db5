----------------------------- MODULE RunnerShots -----------------------------
(***************************************************************************)
(* Programs whose results are random, run for some shots with or without a *)
(* seed.  What the shots record is a function of the program and the seed, *)
(* shot after shot, whatever form the program comes in, however it was     *)
(* written, and whatever ran before; from another seed, and in a process   *)
(* that has no seed, it is never the same.  Without a seed, a process      *)
(* that ran a seeded program before may go on from there, but it does not  *)
(* start over.  Every shot draws afresh.                                   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, SequencesExt
CONSTANT TraceFile
Log == ndJsonDeserialize(TraceFile)
VARIABLES i, memo, ok,
          new,  \* this process has a seed that nothing was drawn from
          last  \* the last run of this process with a seed
Init == i = 1 /\ memo = << >> /\ ok = TRUE /\ new = FALSE /\ last = 0
Outcomes(p) == IF p = 1 THEN {"00", "01", "10", "11"} ELSE {"0", "1"}
Seen(s) == {s[x] : x \in 1..Len(s)}
Long(s) == Len(s) >= 70
Agree(a, b) == IsPrefix(a, b) \/ IsPrefix(b, a)
Next ==
  /\ i <= Len(Log) /\ i' = i + 1
  /\ LET e == Log[i]
         k == <<e.p, e.seed, IF e.seed >= 0 THEN 0 ELSE IF e.own THEN -i ELSE i>>
         \* going on from where two seeded runs ended may well be the same
         onward(d) == k[3] > 0 /\ d[3] > 0 /\ d[3] <= last
     IN  IF e.op = "start" THEN UNCHANGED <<memo, ok, new, last>>
         ELSE /\ ok' = /\ Len(e.out) = e.shots
                       /\ Seen(e.out) \subseteq Outcomes(e.p)
                       /\ e.shots >= 40 => Cardinality(Seen(e.out)) > 1
                       /\ k \in DOMAIN memo => Agree(memo[k], e.out)
                       /\ Long(e.out) /\ (e.seed >= 0 \/ e.own \/ ~new) => \A d \in DOMAIN memo : d # k /\ d[1] = e.p /\ Long(memo[d]) /\ ~onward(d) => ~Agree(memo[d], e.out)
              /\ memo' = IF (e.seed = -1 /\ ~e.own /\ new) \/ (k \in DOMAIN memo /\ Len(memo[k]) >= Len(e.out)) THEN memo
                         ELSE (k :> e.out) @@ memo
              /\ new' = IF e.own THEN new ELSE (e.seed >= 0 \/ new) /\ e.shots = 0
              /\ last' = IF e.seed >= 0 /\ ~e.own THEN i ELSE last
Spec == Init /\ [][Next]_<<i, memo, ok, new, last>>
Explained == ok
=============================================================================
