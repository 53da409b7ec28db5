------------------------------- MODULE Output -------------------------------
(***************************************************************************)
(* Recording output: every call adds exactly one line, in its documented   *)
(* form, to standard output or to the buffer, whichever is in use; the     *)
(* buffer keeps its lines until drained.  A failing program adds its       *)
(* message as the last line and ends.  Initialising leaves all output      *)
(* alone.                                                                  *)
(***************************************************************************)
EXTENDS Values, CSV, Json
CONSTANTS Depth, Out, Ops, Doomed
VARIABLES mode,    \* "out" or "buf"
          out,     \* all that went to standard output
          buf,     \* what the buffer holds
          calls, lines,      \* numbers of recording calls and of lines written by them
          strs,    \* the strings in use, as code points
          res,     \* the static results, and whether there are any
          hist
vars == <<mode, out, buf, calls, lines, strs, res, hist>>

OpsAll == <<"str", "msg", "msg", "msgrec", "int", "dbl", "bool", "array", "tuple", "res", "res", "wr", "init", "out", "buf", "buf",
            "drain", "drain", "raw", "nl", "many", "lint", "ldbl", "lbool", "larr", "ltup", "lres", "las", "lae", "lts", "lte">>
OpsOut == <<"str", "str", "msg", "msg", "msgrec", "int", "dbl", "bool", "array", "tuple", "res", "lint", "lres", "raw", "out", "init">>
Slots == <<0, 1, 2, 65>>

NL == <<10>>
Tab == <<9>>
LabelByte(u) == LET r == RandomElement(0..5) IN
             IF r = 0 THEN RandomElement(1..8) ELSE IF r = 1 THEN RandomElement(128..255) ELSE RandomElement(32..126)
LabelLens == <<0, 1, 2, 5, 12, 12, 1600>>
\* at most one label: <<>> or <<bytes>>
Label(u) == TLCEval(IF RandomElement(0..2) = 0 THEN <<>>
                 ELSE LET n == Pick(LabelLens) IN
                      IF n > 1000 THEN <<[x \in 1..n |-> IF x = n THEN 90 ELSE 97]>> ELSE <<[x \in 1..n |-> LabelByte(0)]>>)
Blocky(n) == [x \in 1..n |-> IF x = n \div 2 THEN 955 ELSE IF x = n THEN 10 ELSE KiloCp]
LongTxt(u) == CASE RandomElement(0..30) = 0 -> TLCEval([x \in 1..1200 |-> IF x = 600 THEN 955 ELSE 98])
                [] RandomElement(0..60) = 0 -> TLCEval(Blocky(Pick(<<5, 9, 17, 66, 80>>)))
                [] OTHER -> Txt(0)

Record(ty, val, l) == <<"OUTPUT">> \o Tab \o <<ty>> \o Tab \o val \o (IF l = <<>> THEN <<>> ELSE Tab \o l[1]) \o NL
Old(val) == <<"RESULT">> \o Tab \o val \o NL
Info(cps) == <<"INFO">> \o Tab \o Escape(cps) \o NL

E(op, a, b, in, d, l, t) == [op |-> op, a |-> a, b |-> b, in |-> in, d |-> d, l |-> l, t |-> t]
Write(t) == IF mode = "out" THEN out' = out \o t /\ UNCHANGED buf ELSE buf' = buf \o t /\ UNCHANGED out
Log(e) == hist' = Append(hist, e)
Line(e, t) == Write(t) /\ Log(e) /\ calls' = calls + 1 /\ lines' = lines + 1 /\ UNCHANGED <<mode, strs, res>>
Silent(e) == Log(e) /\ UNCHANGED <<calls, lines>>

(* A number is a constant result until static results are in use. *)
Value(n) == IF res.used THEN n \in res.ones ELSE n = 1
ResNum == IF res.used THEN Pick(Slots) ELSE RandomElement(0..1)

Init == mode = "out" /\ out = <<>> /\ buf = <<>> /\ calls = 0 /\ lines = 0 /\ strs = <<>> /\ res = [used |-> FALSE, ones |-> {}]
        /\ hist = <<>>

(* a large write: n * 1024 letters at once, or each thousand on its own (b = 1) *)
Blocks(n) == [x \in 1..n |-> Kilo]

Step(op) ==
  \E a \in {RandomElement(1..(Len(strs) + 1))} :
     LET have == a <= Len(strs) IN
     CASE op = "msg" /\ have -> Line(E(op, a, 0, <<>>, "", <<>>, <<>>), Info(strs[a]))
       [] op = "msgrec" /\ have -> Line(E(op, a, 0, <<>>, "", <<>>, <<>>), Info(strs[a]))
       [] op \in {"int", "array", "tuple"} -> \E x \in {I64(0)} : \E l \in {Label(0)} :
             Line(E(op, 0, 0, x, "", l, <<>>),
                  Record(CASE op = "int" -> "INT" [] op = "array" -> "ARRAY" [] OTHER -> "TUPLE", I64Text(x), l))
       [] op \in {"lint", "larr", "ltup"} -> \E x \in {I64(0)} :
             Line(E(op, 0, 0, x, "", <<>>, <<>>),
                  CASE op = "lint" -> Old(I64Text(x)) [] op = "larr" -> Record("ARRAY", I64Text(x), <<>>)
                    [] OTHER -> Record("TUPLE", I64Text(x), <<>>))
       [] op = "dbl" -> \E x \in {Double(0)} : \E l \in {Label(0)} : Line(E(op, 0, 0, <<>>, x.d, l, <<>>), Record("DOUBLE", x.t, l))
       [] op = "ldbl" -> \E x \in {Double(0)} : Line(E(op, 0, 0, <<>>, x.d, <<>>, <<>>), Old(x.t))
       [] op = "bool" -> \E x \in {RandomElement(BOOLEAN)} : \E l \in {Label(0)} :
             Line(E(op, IF x THEN 1 ELSE 0, 0, <<>>, "", l, <<>>), Record("BOOL", BoolText(x), l))
       [] op = "lbool" -> \E x \in {RandomElement(BOOLEAN)} :
             Line(E(op, IF x THEN 1 ELSE 0, 0, <<>>, "", <<>>, <<>>), Old(BoolText(x)))
       [] op = "res" -> \E n \in {ResNum} : \E l \in {Label(0)} :
             Line(E(op, n, 0, <<>>, "", l, <<>>), Record("RESULT", <<IF Value(n) THEN "1" ELSE "0">>, l))
       [] op = "lres" -> \E n \in {ResNum} :
             Line(E(op, n, 0, <<>>, "", <<>>, <<>>), Old(<<IF Value(n) THEN "1" ELSE "0">>))
       [] op \in {"las", "lae", "lts", "lte"} ->
             Line(E(op, 0, 0, <<>>, "", <<>>, <<>>),
                  Old(<<CASE op = "las" -> "ARRAY_START" [] op = "lae" -> "ARRAY_END" [] op = "lts" -> "TUPLE_START"
                          [] OTHER -> "TUPLE_END">>))
       [] op = "wr" -> \E n \in {Pick(Slots)} : \E v \in {RandomElement(0..1)} :
             /\ res' = [used |-> TRUE, ones |-> IF v = 1 THEN res.ones \cup {n} ELSE res.ones \ {n}]
             /\ Silent(E(op, n, v, <<>>, "", <<>>, <<>>)) /\ UNCHANGED <<mode, out, buf, strs>>
       [] op = "init" -> /\ res' = [used |-> FALSE, ones |-> {}]
                         /\ Silent(E(op, 0, 0, <<>>, "", <<>>, <<>>)) /\ UNCHANGED <<mode, out, buf, strs>>
       [] op \in {"out", "buf"} -> /\ mode' = op /\ Silent(E(op, 0, 0, <<>>, "", <<>>, <<>>)) /\ UNCHANGED <<out, buf, strs, res>>
       [] op = "drain" -> /\ buf' = <<>> /\ Silent(E(op, 0, 0, <<>>, "", <<>>, buf)) /\ UNCHANGED <<mode, out, strs, res>>
       [] op = "raw" -> \E s \in {TLCEval([x \in 1..RandomElement(0..20) |-> RandomElement(32..255)])} :
             /\ Write(s) /\ Silent(E(op, 0, 0, s, "", <<>>, <<>>)) /\ UNCHANGED <<mode, strs, res>>
       [] op = "many" /\ RandomElement(0..40) = 0 -> \E n \in {Pick(<<1, 7, 8, 31, 32, 63, 64, 65, 70, 128, 150, 1100>>)} : \E b \in {RandomElement(0..1)} :
             /\ Write(Blocks(n)) /\ Silent(E(op, n, b, <<>>, "", <<>>, <<>>)) /\ UNCHANGED <<mode, strs, res>>
       [] op = "nl" -> Write(NL) /\ Silent(E(op, 0, 0, <<>>, "", <<>>, <<>>)) /\ UNCHANGED <<mode, strs, res>>
       [] OTHER -> \E s \in {LongTxt(0)} : /\ strs' = Append(strs, s) /\ Silent(E("str", 0, 0, Bytes(s), "", <<>>, <<>>))
                                        /\ UNCHANGED <<mode, out, buf, res>>

(* The last step of a doomed program: it fails, its message is the last line.  "dead" has the exact line; *)
(* "deadline" is a failure the runtime words itself, on one line.                                         *)
Dooms == <<"fail", "fail", "fail", "assert", "assert", "assertc", "concat", "measure", "assertsize", "rint", "rdbl">>
Doom ==
  /\ Len(hist) = Depth - 2 /\ Doomed
  /\ \E op \in {Pick(Dooms)} : \E s \in {LongTxt(0)} : \E a \in {Byte(0)} : \E b \in {Byte(0)} :
     \E n \in {RandomElement(0..3)} : \E m \in {RandomElement(0..3)} :
     /\ hist' = hist \o <<E(op, a, b, Bytes(s), "", <<<<n, IF m = n THEN n + 1 ELSE m>>>>, <<>>),
                          IF mode = "buf" THEN E("dead", 0, 0, <<>>, "", <<>>, out)
                          ELSE IF op \in {"fail", "assert", "assertc"} THEN E("dead", 0, 0, <<>>, "", <<>>, out \o Info(s))
                          ELSE E("deadline", 0, 0, <<>>, "", <<>>, out \o <<"INFO">> \o Tab)>>
  /\ UNCHANGED <<mode, out, buf, calls, lines, strs, res>>
Done ==
  /\ Len(hist) = Depth - 2 /\ ~Doomed
  /\ hist' = hist \o <<E("drain", 0, 0, <<>>, "", <<>>, buf), E("end", 0, 0, <<>>, "", <<>>, out)>>
  /\ UNCHANGED <<mode, out, buf, calls, lines, strs, res>>
Next == \/ Doom \/ Done
        \/ Len(hist) < Depth - 2 /\ \E op \in {Pick(Ops)} : Step(op)
Spec == Init /\ [][Next]_vars

(* What is written are whole lines as many as calls, but for raw writes. *)
Lines == calls = lines
Kept == [][mode = "out" /\ mode' = "out" => SubSeq(out', 1, Len(out)) = out]_vars
Emit == Len(hist) = Depth => CSVWrite("%1$s", <<ToJson(hist)>>, Out)
=============================================================================
