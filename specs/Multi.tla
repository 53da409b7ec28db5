------------------------------- MODULE Multi -------------------------------
(***************************************************************************)
(* Several simulations at once: on threads of their own (kind "qir", each  *)
(* with a recorder of output of its own) or as instances that share a      *)
(* thread with another (kind "sim").  Each is a copy of Slots and nothing  *)
(* but its own steps changes it: what a step reports depends on the        *)
(* simulation's own history alone.  Only standard output is shared: it has *)
(* the lines of all in the order of the steps.                             *)
(***************************************************************************)
EXTENDS Slots
CONSTANTS Kinds, Depth, Out, Known, Stdout
VARIABLES st, mode, buf, out, said, hist
vars == <<st, mode, buf, out, said, hist>>
K4 == <<"qir", "qir", "sim", "sim">>
K3 == <<"qir", "qir", "qir">>
K2 == <<"sim", "sim">>
MQ == <<0, 1, 2>>
MR == <<0, 1, 3>>
Comps == 1..Len(Kinds)
Pick(seq) == seq[RandomElement(1..Len(seq))]
Names == <<"x", "x", "h", "z", "cx", "bell", "swap", "mz", "mz", "mrz", "m", "rst", "isz", "rd", "rd", "wr0", "wr1", "snap", "x", "mz",
           "cx", "rec", "rec", "say", "say", "drain", "drain", "init", "fresh", "out", "buf">>
OnlyQir == {"rec", "say", "drain", "init", "fresh", "out", "buf"}
(* A message is its number, sometimes written over and over. *)
RECURSIVE Times(_, _)
Times(t, n) == IF n = 0 THEN "" ELSE IF n % 2 = 1 THEN t \o Times(t, n - 1) ELSE LET x == Times(t, n \div 2) IN x \o x
Lengths == <<1, 1, 1, 1, 1, 1, 1, 1, 100, 513, 1500>>
Init == /\ st = [c \in Comps |-> Blank] /\ mode = [c \in Comps |-> "buf"] /\ buf = [c \in Comps |-> ""]
        /\ out = "" /\ said = 0 /\ hist = <<>>
Ev(c, op, a, b, v, t) == [c |-> c, op |-> op, a |-> a, b |-> b, v |-> v, t |-> t]
Line(c, t) == IF mode[c] = "out" THEN out' = out \o t /\ UNCHANGED buf ELSE buf' = [buf EXCEPT ![c] = @ \o t] /\ UNCHANGED out
Skip == hist' = Append(hist, Ev(0, "skip", 0, 0, None, "")) /\ UNCHANGED <<st, mode, buf, out, said>>
Step(c, n, a, b) ==
  LET e == [op |-> n, a |-> a, b |-> b] IN
  CASE n \in OnlyQir /\ Kinds[c] # "qir" -> Skip
    [] n = "say" -> \E l \in {Pick(Lengths)} :
                    /\ said' = said + 1 /\ Line(c, "INFO\t" \o Times(ToString(said), l) \o "\n")
                    /\ hist' = Append(hist, Ev(c, n, said, l, None, "")) /\ UNCHANGED <<st, mode>>
    [] n = "drain" -> /\ buf' = [buf EXCEPT ![c] = ""] /\ hist' = Append(hist, Ev(c, n, 0, 0, None, buf[c]))
                      /\ UNCHANGED <<st, mode, out, said>>
    [] n \in {"out", "buf"} -> IF ~Stdout /\ n = "out" THEN Skip
                               ELSE /\ mode' = [mode EXCEPT ![c] = n] /\ hist' = Append(hist, Ev(c, n, 0, 0, None, ""))
                                    /\ UNCHANGED <<st, buf, out, said>>
    (* the thread ends and another takes its place *)
    [] n = "fresh" -> IF c = 1 THEN Skip
                      ELSE /\ st' = [st EXCEPT ![c] = Blank] /\ buf' = [buf EXCEPT ![c] = ""] /\ mode' = [mode EXCEPT ![c] = "buf"]
                           /\ hist' = Append(hist, Ev(c, n, 0, 0, None, "")) /\ UNCHANGED <<out, said>>
    [] OTHER ->
       IF Enabled(st[c], e) /\ (Known => Cardinality(Outcomes(st[c], e)) = 1)
       THEN \E o \in {RandomElement(Outcomes(st[c], e))} :
              /\ st' = [st EXCEPT ![c] = o.s]
              /\ hist' = Append(hist, Ev(c, n, a, b, IF n = "rec" THEN None ELSE o.v, ""))
              /\ IF n = "rec" THEN Line(c, "OUTPUT\tRESULT\t" \o ToString(o.v) \o "\n") ELSE UNCHANGED <<buf, out>>
              /\ UNCHANGED <<mode, said>>
       ELSE Skip
End == /\ Len(hist) = Depth - 1
       /\ hist' = Append(hist, Ev(0, "end", 0, 0, None, out)) /\ UNCHANGED <<st, mode, buf, out, said>>
Next == \/ End
        \/ /\ Len(hist) < Depth - 1
           /\ \E c \in {RandomElement(Comps)} : \E n \in {Pick(Names)} : \E a \in {Pick(QIds)} : \E b0 \in {Pick(QIds)} :
              \E r \in {Pick(RIds)} : Step(c, n, a, IF n \in {"cx", "bell", "swap"} THEN b0 ELSE r)
Spec == Init /\ [][Next]_vars
Emit == Len(hist) = Depth => CSVWrite("%1$s", <<ToJson(hist)>>, Out)
(* Non-interference: a step leaves the others as they were. *)
Apart == [][Len(hist') > Len(hist) => LET e == hist'[Len(hist')] IN
            \A c \in Comps : c # e.c => st'[c] = st[c] /\ buf'[c] = buf[c] /\ mode'[c] = mode[c]]_vars
Mute == ~Stdout => out = ""
=============================================================================
