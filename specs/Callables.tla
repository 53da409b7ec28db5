------------------------------ MODULE Callables ------------------------------
(***************************************************************************)
(* First-class operations.  A callable names a table of four               *)
(* implementations (body, adjoint, controlled, controlled adjoint), an     *)
(* optional table of two capture callbacks and captured values; functors   *)
(* change its adjoint parity and its count of controls.  Invoking it with  *)
(* n controls takes n nested argument tuples, each a list of controls and  *)
(* the next tuple; the implementation gets one tuple: all controls, the    *)
(* outermost first, and the innermost arguments.                           *)
(*                                                                         *)
(* A forwarding callable captures a copy of another one, and its           *)
(* implementations apply that one with the same functors and arguments.    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, CSV

Make(tab, mem, cap, fwd) == [tab |-> tab, mem |-> mem, cap |-> cap, fwd |-> fwd, adj |-> FALSE, ctl |-> 0, rc |-> 1, al |-> 0]
(* a forwarding callable has fwd = <<the captured callable>>, else <<>> *)

Which(adj, ctl) == (IF adj THEN 1 ELSE 0) + (IF ctl > 0 THEN 2 ELSE 0)
RECURSIVE Flat(_)
Flat(lists) == IF lists = <<>> THEN <<>> ELSE Head(lists) \o Flat(Tail(lists))

(* What is finally run: table, specialisation, captured value.             *)
RECURSIVE Run(_, _, _)
Run(c, adj, ctl) ==
  IF c.fwd = <<>> THEN [tab |-> c.tab, idx |-> Which(adj, ctl), cap |-> c.cap]
  ELSE LET t == c.fwd[1] IN Run(t, t.adj # adj, IF ctl > 0 THEN 1 ELSE 0)
Invoked(c) == Run(c, c.adj, c.ctl)

HasRef(mem) == mem \in {1, 3}
HasAl(mem) == mem \in {2, 3}
=============================================================================
