-------------------------------- MODULE Slots --------------------------------
(***************************************************************************)
(* Programs that name qubits and results by constant numbers.  A qubit is  *)
(* a slot holding "0", "1", "+", "-" or, while measured in neither, the    *)
(* half of a maximally entangled pair ("e" or "n"); a result is a slot   *)
(* holding 0 or 1 that is 0 until first written.  Numbers may have gaps    *)
(* and come in any order.  Initialising clears everything.                 *)
(*                                                                         *)
(* Outcomes(s, e) is the relation between a state, an operation and what   *)
(* it may report; SlotsGen uses it to generate behaviours, SlotsTrace to   *)
(* validate recordings of the real system, random outcomes included.       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, CSV

CONSTANTS QIds, RIds           \* sequences of numbers in use
QA == <<0, 1, 2, 3>>
QB == <<5, 0, 70, 64, 9>>
QC == <<130, 2, 63>>
QD == <<300, 256, 0, 257>>
RA == <<0, 1, 2, 3>>
RB == <<64, 0, 63, 7, 1, 200>>
RC == <<1000, 1, 65, 129>>
RD == <<70000, 0, 65536, 4463, 255>>

Ran(s) == { s[n] : n \in 1..Len(s) }
Q == Ran(QIds)
R == Ran(RIds)
Blank == [q |-> [x \in Q |-> "0"], p |-> [x \in Q |-> x], r |-> [x \in R |-> 0], used |-> FALSE]

Flip(v) == IF v = "0" THEN "1" ELSE IF v = "1" THEN "0" ELSE v
Had(v) == CASE v = "0" -> "+" [] v = "1" -> "-" [] v = "+" -> "0" [] OTHER -> "1"
Zed(v) == CASE v = "+" -> "-" [] v = "-" -> "+" [] OTHER -> v
Bit(v) == IF v = "1" THEN 1 ELSE 0
Free(s, x) == s.p[x] = x       \* not entangled

(* Is the operation one this specification describes in this state?  (The  *)
(* answer never depends on earlier random outcomes.)                       *)
Enabled(s, e) ==
  CASE e.op \in {"h", "z"} -> Free(s, e.a)
    [] e.op = "cx" -> e.a # e.b /\ Free(s, e.a) /\ Free(s, e.b) /\ s.q[e.a] \in {"0", "1"}
    [] e.op = "bell" -> e.a # e.b /\ Free(s, e.a) /\ Free(s, e.b) /\ {s.q[e.a], s.q[e.b]} \subseteq {"0", "1"}
    [] e.op = "swap" -> e.a # e.b /\ Free(s, e.a) /\ Free(s, e.b)
    [] e.op = "rec" -> s.used       \* otherwise a number denotes a constant result
    [] OTHER -> TRUE

(* Measuring slot a with outcome o.  Bell pairs are prepared in equal      *)
(* values; an X on one half is remembered in its value "e" / "n".          *)
Measure(s, a, o) ==
  LET b == s.p[a]
      same == s.q[a] = s.q[b]
      v == IF o = 1 THEN "1" ELSE "0"
  IN  IF b = a THEN [s EXCEPT !.q[a] = v]
      ELSE [s EXCEPT !.q[a] = v, !.q[b] = IF same THEN v ELSE Flip(v), !.p[a] = a, !.p[b] = b]
Possible(s, a) == IF ~Free(s, a) \/ s.q[a] \in {"+", "-"} THEN {0, 1} ELSE {Bit(s.q[a])}
X(s, a) == IF Free(s, a) THEN [s EXCEPT !.q[a] = Flip(@)]
           ELSE [s EXCEPT !.q[a] = IF @ = "e" THEN "n" ELSE "e"]
ResetTo0(s, a, o) == [Measure(s, a, o) EXCEPT !.q[a] = "0"]
Store(s, b, o) == [s EXCEPT !.r[b] = o, !.used = TRUE]
Touch(s) == [s EXCEPT !.used = TRUE]
None == -1

(* What a dump shows of the results: which numbers hold a one, as a sum    *)
(* that determines them; nothing as long as no result has been used.       *)
RECURSIVE SumOf(_)
SumOf(S) == IF S = {} THEN 0 ELSE LET x == CHOOSE y \in S : TRUE IN (x % 1013) * (x % 1013) + 3 * x + 1 + SumOf(S \ {x})
Shown(s) == IF s.used THEN SumOf({ x \in R : s.r[x] = 1 }) ELSE None
ASSUME \A S, T \in SUBSET R : SumOf(S) = SumOf(T) => S = T

(* "bell" is H on a, then CNOT from a to b.                                *)
(* The set of [v: report, s: next state] an operation may lead to.         *)
Outcomes(s, e) ==
  CASE e.op = "x" -> { [v |-> None, s |-> X(s, e.a)] }
    [] e.op = "h" -> { [v |-> None, s |-> [s EXCEPT !.q[e.a] = Had(@)]] }
    [] e.op = "z" -> { [v |-> None, s |-> [s EXCEPT !.q[e.a] = Zed(@)]] }
    [] e.op = "cx" -> { [v |-> None, s |-> IF s.q[e.a] = "1" THEN X(s, e.b) ELSE s] }
    [] e.op = "bell" -> { [v |-> None, s |-> [s EXCEPT !.q[e.a] = "e", !.q[e.b] = IF @ = "0" THEN "e" ELSE "n",
                                                       !.p[e.a] = e.b, !.p[e.b] = e.a]] }
    [] e.op = "swap" -> { [v |-> None, s |-> [s EXCEPT !.q[e.a] = s.q[e.b], !.q[e.b] = s.q[e.a]]] }
    [] e.op = "mz" -> { [v |-> None, s |-> Store(Measure(s, e.a, o), e.b, o)] : o \in Possible(s, e.a) }
    [] e.op = "mrz" -> { [v |-> None, s |-> Store(ResetTo0(s, e.a, o), e.b, o)] : o \in Possible(s, e.a) }
    [] e.op = "m" -> { [v |-> o, s |-> Measure(s, e.a, o)] : o \in Possible(s, e.a) }
    [] e.op = "rst" -> { [v |-> None, s |-> ResetTo0(s, e.a, o)] : o \in Possible(s, e.a) }
    [] e.op = "isz" -> { [v |-> IF Free(s, e.a) /\ s.q[e.a] = "0" THEN 1 ELSE 0, s |-> s] }
    [] e.op \in {"rd", "rdq"} -> { [v |-> s.r[e.b], s |-> Touch(s)] }
    [] e.op \in {"wr0", "wr1"} -> { [v |-> None, s |-> Store(s, e.b, IF e.op = "wr1" THEN 1 ELSE 0)] }
    [] e.op = "rec" -> { [v |-> s.r[e.b], s |-> s] }
    [] e.op = "dump" -> { [v |-> Shown(s), s |-> s] }
    [] e.op = "snap" -> { [v |-> None, s |-> s] }
    [] e.op = "init" -> { [v |-> None, s |-> Blank] }
=============================================================================
