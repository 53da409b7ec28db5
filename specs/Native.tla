------------------------------- MODULE Native -------------------------------
(***************************************************************************)
(* Programs that are compiled and linked with the library instead of being *)
(* handed to the runner: the symbols of the library are the current output *)
(* functions and a measurement that returns its result, nothing says which *)
(* functions exist but the linker, and it is the one who calls the entry   *)
(* point, as often as wanted and each time after initialize, that frames   *)
(* the output.  What the program records is what Runner says it records.   *)
(***************************************************************************)
EXTENDS Runner

(* replaces Runner's measurement: the one without a result returns it *)
NatMeas(dyn) ==
  TLCEval(LET q == RandomElement(0..(NQ - 1)) IN
          O("m", IF dyn THEN M ELSE Pick(<<QN("mz__body"), QN("mresetz__body")>>), <<q>>,
            IF dyn THEN RandomElement(0..1) ELSE Pick(ResIds), <<>>, "", <<>>))
Exported(nm, n) == Linkable(nm, n) /\ nm \notin OldOnly /\ (nm \in Either => n = 2) /\ (nm = M => n = 1)
Suits(p) ==
  /\ ~p.old /\ p.own = "" /\ p.mixed = ""
  \* all that is declared, used or not, is there with these parameters
  /\ LET d == Declared(p) IN \A nm \in DOMAIN d : Exported(nm, d[nm])
  /\ \E x \in 1..Len(p.funcs) : p.funcs[x].entry /\ p.funcs[x].params = 0
(* replaces Runner's request; a program that does not suit is not asked for *)
NatRequest(p) ==
  TLCEval(LET some == SelectSeq(p.funcs, LAMBDA x : x.entry /\ x.params = 0)
              suits == Suits(p)
          IN [form |-> "ll", shots |-> Pick(<<1, 1, 2, 3>>), filter |-> IF suits THEN <<Pick(some).nm>> ELSE <<>>, seed |-> <<>>,
              harm |-> IF suits THEN "" ELSE "empty", style |-> RandomElement(0..7)])
(* Linking refuses none of the programs that suit. *)
Linked == \A k \in New : hist[k].req.harm = "" => hist[k].verdict \in {"ran", "failed"}
(* All that the library has, each of it to be found by the linker. *)
NameSpec == Init /\ [][FALSE]_vars
Listed == hist = <<>> => CSVWrite("%1$s", <<ToJson({nm \in All : \E n \in 0..MaxParams : Exported(nm, n)})>>, Out)
=============================================================================
