-------------------------------- MODULE Seeds --------------------------------
(***************************************************************************)
(* Random sequences.  Seeding starts a stream that is named by the seed;   *)
(* everything that draws from it moves it on.  So the outcomes of a        *)
(* program are a function (unknown, but one function: `memo`) of the seed  *)
(* and of what has been run since seeding, whatever was there before the   *)
(* seed was set, whichever thread runs it, and whether or not the program  *)
(* is observed on the way.  A program with many random bits never repeats  *)
(* the outcomes it had elsewhere, and without a seed nothing is ever       *)
(* repeated.  A program starts from a blank runtime.                       *)
(*                                                                         *)
(* SeedsGen generates scripts; this module validates their recordings.     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, CSV, IOUtils, SequencesExt
CONSTANTS TraceFile

Log == ndJsonDeserialize(TraceFile)
VARIABLES i, key, memo, ok
Unknown == <<>>
Init == i = 1 /\ key = Unknown /\ memo = << >> /\ ok = TRUE

Long(p) == p \in {1, 2, 3, 5}          \* programs with at least 60 random bits
Run(e) ==
  IF key = Unknown THEN UNCHANGED <<key, memo, ok>>
  ELSE LET k == Append(key, <<e.op, e.p>>) IN
       /\ key' = k
       /\ IF k \in DOMAIN memo THEN ok' = (memo[k] = e.out) /\ UNCHANGED memo
          ELSE /\ ok' = (e.op = "run" /\ Long(e.p) =>
                          \A d \in DOMAIN memo : (d[1] # k[1] \/ IsPrefix(d, k)) => memo[d] # e.out)
               /\ memo' = (k :> e.out) @@ memo
(* Junk that measures nothing draws nothing, and initialising removes it.  *)
Leftover(e) == e.op = "junk" /\ e.p \in {2, 3}
Next ==
  /\ i <= Len(Log)
  /\ i' = i + 1
  /\ LET e == Log[i] IN
     CASE e.op = "start" -> key' = Unknown /\ UNCHANGED <<memo, ok>>
       \* nothing but the stream is new: neither the state of the qubits nor any result
       [] e.op = "seed" -> key' = << <<"seed", e.p>> >> /\ ok' = (e.out \in {"", "kept"}) /\ UNCHANGED memo
       [] Leftover(e) -> UNCHANGED <<key, memo, ok>>
       [] e.op = "fresh" -> /\ ok' = \A d \in DOMAIN memo : memo[d] # e.out
                            /\ memo' = (<<<<"fresh", i>>>> :> e.out) @@ memo /\ UNCHANGED key
       [] e.op \in {"run", "junk"} -> Run(e)
       [] e.op = "blank" -> ok' = (e.out = "0 qubits, state |0>, results 0") /\ UNCHANGED <<key, memo>>
Spec == Init /\ [][Next]_<<i, key, memo, ok>>
Explained == ok
=============================================================================
