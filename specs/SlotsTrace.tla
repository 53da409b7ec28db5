----------------------------- MODULE SlotsTrace -----------------------------
(***************************************************************************)
(* Is a recording of the real runtime a behaviour of Slots?  The stored    *)
(* outcome of mz and mrz and that of a reset are not in the recording at   *)
(* that point, so the checker keeps every state the recording so far       *)
(* allows; a recording is refused when none is left.                       *)
(***************************************************************************)
EXTENDS Slots, IOUtils
CONSTANT TraceFile
Log == ndJsonDeserialize(TraceFile)
VARIABLES i, may
Init == i = 1 /\ may = {Blank}
Next == /\ i <= Len(Log)
        /\ i' = i + 1
        /\ LET e == Log[i] IN
           may' = IF e.op = "start" THEN {Blank}
                  ELSE { n.s : n \in { x \in UNION { Outcomes(s, e) : s \in may } : x.v = e.v } }
Spec == Init /\ [][Next]_<<i, may>>
Explained == may # {}
Described == i <= Len(Log) => \/ Log[i].op = "start"
                              \/ \A s \in may : Enabled(s, Log[i])
Complete == TLCGet("stats").distinct = Len(Log) + 1
=============================================================================
