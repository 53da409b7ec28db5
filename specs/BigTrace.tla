------------------------------ MODULE BigTrace ------------------------------
(* Is every recorded big-integer operation of the real runtime exact?      *)
EXTENDS Big, Json, IOUtils
CONSTANT TraceFile
Log == ndJsonDeserialize(TraceFile)
VARIABLES i, ok
Init == i = 1 /\ ok = TRUE
Good(e) ==
  LET a == FromBytes(e.a)  b == FromBytes(e.b) IN
  CASE e.op \in Tests -> e.v = Test(e.op, a, b)
    [] e.op = "text" -> e.t = Dec(a)
    [] OTHER -> e.o = ToBytes(Value(e.op, a, b, e.k))
Next == /\ i <= Len(Log)
        /\ i' = i + 1
        /\ ok' = (Log[i].op = "start" \/ Good(Log[i]))
Spec == Init /\ [][Next]_<<i, ok>>
Explained == ok
=============================================================================
