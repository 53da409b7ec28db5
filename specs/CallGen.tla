------------------------------- MODULE CallGen -------------------------------
(* Random histories of callables, with what every invocation must run.     *)
EXTENDS Callables
CONSTANTS Depth, Out
VARIABLES cs, hist
Pick(s) == s[RandomElement(1..Len(s))]
Ops == <<"new", "new", "fwd", "adj", "adj", "ctl", "ctl", "ctl", "inv", "inv", "inv", "inv", "inv", "copy", "copy", "al+", "al-",
         "ref+", "ref-", "capref", "capal">>
NoRun == [tab |-> 0, idx |-> 0, cap |-> 0]
Rec(op, o, x, k, f) == [op |-> op, o |-> o, x |-> x, k |-> k, f |-> f, tab |-> 0, mem |-> 0, cap |-> 0, lists |-> <<>>,
                        pay |-> <<>>, null |-> FALSE, keep |-> 0, al |-> 0, want |-> NoRun, flat |-> <<>>]
Live == { o \in 1..Len(cs) : cs[o].rc > 0 }
Put(r) == hist' = Append(hist, r)
Skip == UNCHANGED cs /\ Put(Rec("skip", 0, 0, 0, FALSE))
MaxNest == 9
DeepNest == 600
Times == <<1, 1, 1, 1, 1, 1, 1, 1, 2, 7, 14, 15, 16, 17, 31, 32, 33, 64, 255, 256, 257>>
Lens == <<0, 1, 1, 2, 3>>
Many == <<64, 65, 255, 256, 257, 300>>
RandSeq(n) == [x \in 1..n |-> RandomElement(0..40)]
Lists(n) == TLCEval([x \in 1..n |-> RandSeq(IF RandomElement(0..59) = 0 THEN Pick(Many) ELSE Pick(Lens))])

New == \E t \in {RandomElement(1..3)} : \E m \in {RandomElement(0..4)} : \E v \in {RandomElement(0..99)} :
  /\ cs' = Append(cs, Make(t, m, v, <<>>))
  /\ Put([Rec("new", 0, Len(cs) + 1, 0, FALSE) EXCEPT !.tab = t, !.mem = m, !.cap = v])
Fwd(o) == IF cs[o].ctl > 0 THEN Skip ELSE
  /\ cs' = Append(cs, Make(0, 0, 0, <<[cs[o] EXCEPT !.rc = 1, !.al = 0]>>))
  /\ Put(Rec("fwd", o, Len(cs) + 1, 0, FALSE))
Inv(o) == \E ls \in {Lists(cs[o].ctl)} : \E pay \in {TLCEval(RandSeq(RandomElement(0..3)))} :
          \E z \in {RandomElement(0..3)} : \E keep \in {RandomElement(0..5)} : \E al \in {RandomElement(0..2)} :
  LET null == z = 0 /\ cs[o].ctl = 0 IN
  /\ UNCHANGED cs
  /\ Put([Rec("inv", o, 0, cs[o].ctl, FALSE) EXCEPT !.lists = ls, !.pay = IF null THEN <<>> ELSE pay, !.null = null,
            !.keep = IF keep > 2 THEN 0 ELSE keep, !.al = al, !.want = Invoked(cs[o]), !.flat = Flat(ls)])
Functor(o, op) ==
  \E k \in {IF RandomElement(0..9) = 0 THEN Pick(Times) ELSE 1} :       \* several times in a row
  LET no == op = "ctl" /\ cs[o].ctl + k > (IF k = 1 THEN MaxNest ELSE DeepNest) IN
  /\ cs' = IF no THEN cs
           ELSE IF op = "adj" THEN (IF k % 2 = 1 THEN [cs EXCEPT ![o].adj = ~@] ELSE cs) ELSE [cs EXCEPT ![o].ctl = @ + k]
  /\ Put(IF no THEN Rec("skip", 0, 0, 0, FALSE) ELSE Rec(op, o, 0, k, FALSE))
DoCopy(o) == \E f \in {RandomElement(BOOLEAN)} :
  LET fresh == f \/ cs[o].al > 0 IN
  /\ cs' = IF fresh THEN Append(cs, [cs[o] EXCEPT !.rc = 1, !.al = 0]) ELSE [cs EXCEPT ![o].rc = @ + 1]
  /\ Put(Rec("copy", o, IF fresh THEN Len(cs) + 1 ELSE o, 0, f))
AlUp(o) == \E k \in {RandomElement(1..2)} : cs' = [cs EXCEPT ![o].al = @ + k] /\ Put(Rec("al", o, 0, k, FALSE))
AlDown(o) == IF cs[o].al = 0 THEN Skip
             ELSE \E k \in {RandomElement(1..cs[o].al)} : cs' = [cs EXCEPT ![o].al = @ - k] /\ Put(Rec("al", o, 0, -k, FALSE))
RefUp(o) == \E k \in {RandomElement(1..2)} : cs' = [cs EXCEPT ![o].rc = @ + k] /\ Put(Rec("ref", o, 0, k, FALSE))
RefDown(o) == IF cs[o].al > 0 THEN Skip
              ELSE \E k \in {RandomElement(1..cs[o].rc)} :
                     cs' = [cs EXCEPT ![o].rc = @ - k] /\ Put(Rec("ref", o, 0, -k, FALSE))
Cap(o, op) == \E k \in {RandomElement(-3..3)} :
  /\ UNCHANGED cs
  /\ Put([Rec(op, o, 0, k, IF op = "capref" THEN HasRef(cs[o].mem) ELSE HasAl(cs[o].mem)) EXCEPT !.cap = cs[o].cap,
                                                                                               !.tab = cs[o].tab])
Init == cs = <<>> /\ hist = <<>>
Next == /\ Len(hist) < Depth
        /\ IF Live = {} THEN New
           ELSE \E op \in {Pick(Ops)} : \E o \in {RandomElement(Live)} :
             CASE op = "new" -> New
               [] op = "fwd" -> Fwd(o)
               [] op = "inv" -> Inv(o)
               [] op \in {"adj", "ctl"} -> Functor(o, op)
               [] op = "copy" -> DoCopy(o)
               [] op = "al+" -> AlUp(o)
               [] op = "al-" -> AlDown(o)
               [] op = "ref+" -> RefUp(o)
               [] op = "ref-" -> RefDown(o)
               [] OTHER -> Cap(o, op)
Spec == Init /\ [][Next]_<<cs, hist>>
Emit == Len(hist) = Depth => CSVWrite("%1$s", <<ToJson(hist)>>, Out)
(* two adjoints cancel; a control once added stays *)
Parity == \A o \in Live : LET c == cs[o] IN
            /\ Invoked([c EXCEPT !.adj = ~@]).idx % 2 # Invoked(c).idx % 2
            /\ (Invoked(c).idx >= 2) = (c.ctl > 0)
=============================================================================
