------------------------------- MODULE Runner -------------------------------
(***************************************************************************)
(* Running programs: a program is submitted with a number of shots, maybe  *)
(* a choice of entry point, in one of several forms.  It is rejected, with *)
(* no output, when it cannot be read, when it needs a function the runtime *)
(* does not have (or has with another number of parameters), when it mixes *)
(* legacy and current output, or when there is not exactly one entry point *)
(* to choose.  Otherwise every shot starts from a blank machine and writes *)
(* a start line, the attributes of the entry point, its records in order,  *)
(* and an end line.                                                        *)
(*                                                                         *)
(* Programs here are classical circuits: the machine is one bit for each   *)
(* qubit and result.                                                       *)
(***************************************************************************)
EXTENDS Values, Link, CSV, Json
CONSTANTS Runs, Out
VARIABLES phase,   \* "idle", "given", "shot"
          prog, req,
          left,    \* shots to run
          stack,   \* of <<function, next operation>>
          bits,    \* qubits that are one
          res,     \* the results that are one, and whether any are in use
          out,     \* what the run has written
          dead,    \* rejected, or not
          hist
vars == <<phase, prog, req, left, stack, bits, res, out, dead, hist>>

(* ------------------------------ operations ----------------------------- *)
QN(n) == "__quantum__qis__" \o n
RN(n) == "__quantum__rt__" \o n
Flip1 == {QN("x__body"), QN("y__body"), QN("rx__body"), QN("ry__body")}      \* rotations by pi
Phase1 == {QN("z__body"), QN("s__body"), QN("t__body"), QN("s__adj"), QN("t__adj"), QN("rz__body")}
CFlip == {QN("cnot__body"), QN("cx__body"), QN("cy__body")}
Flip2 == {QN("rxx__body"), QN("ryy__body")}
Phase2 == {QN("cz__body"), QN("rzz__body")}
Swap == QN("swap__body")
CCX == QN("ccx__body")
Reset == QN("reset__body")
G1 == <<QN("x__body"), QN("x__body"), QN("x__body"), QN("y__body"), QN("rx__body"), QN("ry__body"), QN("z__body"), QN("s__body"),
        QN("t__body"), QN("s__adj"), QN("t__adj"), QN("rz__body"), Reset>>
G2 == <<QN("cnot__body"), QN("cx__body"), QN("cy__body"), Swap, QN("rxx__body"), QN("ryy__body"), QN("cz__body"), QN("rzz__body")>>
Toggle(s, q) == IF q \in s THEN s \ {q} ELSE s \cup {q}
Apply(nm, q, b) ==
  CASE nm \in Flip1 -> Toggle(b, q[1])
    [] nm \in CFlip -> IF q[1] \in b THEN Toggle(b, q[2]) ELSE b
    [] nm \in Flip2 -> Toggle(Toggle(b, q[1]), q[2])
    [] nm = Swap -> {IF x = q[1] THEN q[2] ELSE IF x = q[2] THEN q[1] ELSE x : x \in b}
    [] nm = CCX -> IF q[1] \in b /\ q[2] \in b THEN Toggle(b, q[3]) ELSE b
    [] nm = Reset -> b \ {q[1]}
    [] OTHER -> b
NQ == 3
O(op, nm, q, r, in, d, l) == [op |-> op, nm |-> nm, q |-> q, r |-> r, in |-> in, d |-> d, l |-> l]
N0(op, nm) == O(op, nm, <<>>, 0, <<>>, "", <<>>)
Perms == <<<<0, 1, 2>>, <<0, 2, 1>>, <<1, 0, 2>>, <<1, 2, 0>>, <<2, 0, 1>>, <<2, 1, 0>>>>

LabelByte(u) == LET r == RandomElement(0..7) IN
             IF r = 0 THEN RandomElement(1..8) ELSE IF r = 1 THEN RandomElement(128..255) ELSE RandomElement(32..126)
RECURSIVE Long(_)
Long(n) == TLCEval(IF n = 0 THEN "label" ELSE LET t == Long(n - 1) IN t \o t)
LongLabel(u) == TLCEval(<<<<Long(Pick(<<5, 8, 11, 14>>)) \o ".">>>>)    \* up to some 80 kilobytes
Label(u) == TLCEval(IF RandomElement(0..149) = 0 THEN LongLabel(0) ELSE IF RandomElement(0..2) = 0 THEN <<>> ELSE LET n == RandomElement(0..6) IN <<[x \in 1..n |-> LabelByte(0)]>>)
ResIds == <<0, 0, 1, 1, 4, 70>>

Gate(u) == TLCEval(LET p == Pick(Perms) k == RandomElement(0..9) IN
        IF k < 5 THEN O("g", Pick(G1), <<p[1]>>, 0, <<>>, "", <<>>)
        ELSE IF k < 9 THEN O("g", Pick(G2), <<p[1], p[2]>>, 0, <<>>, "", <<>>)
        ELSE O("g", CCX, p, 0, <<>>, "", <<>>))
Meas(dyn) == TLCEval(LET q == RandomElement(0..(NQ - 1)) r == IF dyn THEN RandomElement(0..1) ELSE Pick(ResIds) IN
             O("m", IF dyn THEN M ELSE Pick(<<M, QN("mz__body"), QN("mresetz__body")>>), <<q>>, r, <<>>, "", <<>>))
Cond(dyn) == TLCEval(LET q == RandomElement(0..(NQ - 1)) r == IF dyn THEN RandomElement(0..1) ELSE Pick(ResIds) IN
             O("if", Pick(IF dyn THEN <<RN("result_equal")>> ELSE <<QN("read_result__body"), RN("read_result")>>),
               <<q>>, r, <<>>, "", <<>>))
Rec(dyn) == TLCEval(LET k == RandomElement(0..9)  v == I64(0)  x == Double(0)  t == Txt(0) IN
       CASE k < 4 -> O("rec", RN("result_record_output"), <<>>, IF dyn THEN RandomElement(0..1) ELSE Pick(ResIds), <<>>, "", Label(0))
         [] k = 4 -> O("rec", RN("int_record_output"), <<>>, 0, v, "", Label(0))
         [] k = 5 -> [O("rec", RN("double_record_output"), <<>>, 0, <<>>, x.d, Label(0)) EXCEPT !.in = x.t]
         [] k = 6 -> O("rec", RN("bool_record_output"), <<>>, RandomElement(0..1), <<>>, "", Label(0))
         [] k = 7 -> O("msg", RN("message"), <<>>, 0, Bytes(t), "", <<t>>)
         [] OTHER -> O("frame", Pick(<<"array", "tuple">>), <<>>, RandomElement(0..9), <<>>, "", Label(0)))
Fake(u) == TLCEval(LET k == RandomElement(0..11) IN
        CASE k < 9 -> LET nm == RandomElement(All) IN
                      O("ref", nm, <<>>, CHOOSE n \in 0..MaxParams : Linkable(nm, n) /\ (k < 5 \/ \A m \in 0..MaxParams : Linkable(nm, m) => m <= n),
                        <<>>, "", <<>>)
          [] k = 9 -> O("ref", RandomElement(All), <<>>, RandomElement(0..MaxParams), <<>>, "", <<>>)
          [] k = 10 -> LET nm == RandomElement(Either \cup {M} \cup OldOnly \cup NewOnly) IN O("ref", nm, <<>>, RandomElement(0..3), <<>>, "", <<>>)
          [] OTHER -> O("ref", Pick(Strangers), <<>>, RandomElement(0..2), <<>>, "", <<>>))

(* -------------------- uses of the rest of the runtime ------------------- *)
(* A use is a few calls on values of their own; what it records:          *)
(* <<"int", text>>, <<"dbl", text>>, <<"bool", b>>, <<"txt", text>> and    *)
(* <<"msg", code points>>.                                                *)
Sums == INSTANCE Big
BigOps == <<"add", "sub", "mul", "div", "mod", "and", "or", "xor", "pow", "shl", "shr", "neg", "not", "eq", "gt", "ge">>
BigNames(op) == CASE op = "add" -> {"bigint_add"} [] op = "sub" -> {"bigint_subtract"} [] op = "mul" -> {"bigint_multiply"}
                  [] op = "div" -> {"bigint_divide"} [] op = "mod" -> {"bigint_modulus"} [] op = "and" -> {"bigint_bitand"}
                  [] op = "or" -> {"bigint_bitor"} [] op = "xor" -> {"bigint_bitxor"} [] op = "pow" -> {"bigint_power"}
                  [] op = "shl" -> {"bigint_shiftleft"} [] op = "shr" -> {"bigint_shiftright"} [] op = "neg" -> {"bigint_negate"}
                  [] op = "not" -> {"bigint_bitnot"} [] op = "eq" -> {"bigint_equal"} [] op = "gt" -> {"bigint_greater"}
                  [] OTHER -> {"bigint_greater_eq"}
(* functions of numbers at arguments where the value is exact: name, arguments, kind and text of the value *)
Exact == << <<"sqrt", <<"4">>, "dbl", "2.0">>, <<"sqrt", <<"0.25">>, "dbl", "0.5">>, <<"cos", <<"0">>, "dbl", "1.0">>,
            <<"cosh", <<"0">>, "dbl", "1.0">>, <<"sin", <<"0">>, "dbl", "0.0">>, <<"sinh", <<"0">>, "dbl", "0.0">>,
            <<"tan", <<"0">>, "dbl", "0.0">>, <<"tanh", <<"0">>, "dbl", "0.0">>, <<"arcsin", <<"0">>, "dbl", "0.0">>,
            <<"arccos", <<"1">>, "dbl", "0.0">>, <<"arctan", <<"0">>, "dbl", "0.0">>, <<"arctan2", <<"0", "1">>, "dbl", "0.0">>,
            <<"log", <<"1">>, "dbl", "0.0">>, <<"ieeeremainder", <<"5", "3">>, "dbl", "-1.0">>,
            <<"ieeeremainder", <<"7", "2">>, "dbl", "-1.0">>, <<"infinity", <<>>, "dbl", "inf">>, <<"nan", <<>>, "dbl", "NaN">>,
            <<"isnan", <<"NaN">>, "bool", "true">>, <<"isnan", <<"1">>, "bool", "false">>, <<"isinf", <<"inf">>, "bool", "true">>,
            <<"isinf", <<"1">>, "bool", "false">>, <<"isnegativeinfinity", <<"-inf">>, "bool", "true">>,
            <<"isnegativeinfinity", <<"inf">>, "bool", "false">>, <<"drawrandomdouble", <<"2.5", "2.5">>, "dbl", "2.5">>,
            <<"drawrandomint", <<"-3", "-3">>, "int", "-3">> >>
(* and elsewhere: bounds of the value *)
Between == << <<"sinh", <<"1">>, "1.17520", "1.17521">>, <<"cosh", <<"1">>, "1.54308", "1.54309">>, <<"tanh", <<"1">>, "0.76159", "0.76160">>,
              <<"sin", <<"1">>, "0.84147", "0.84148">>, <<"cos", <<"1">>, "0.54030", "0.54031">>, <<"tan", <<"1">>, "1.55740", "1.55741">>,
              <<"arcsin", <<"0.5">>, "0.52359", "0.52360">>, <<"arccos", <<"0.5">>, "1.04719", "1.04720">>,
              <<"arctan", <<"2">>, "1.10714", "1.10715">>, <<"arctan2", <<"1", "-1">>, "2.35619", "2.35620">>,
              <<"log", <<"2">>, "0.69314", "0.69315">>, <<"sqrt", <<"2">>, "1.41421", "1.41422">>,
              <<"drawrandomdouble", <<"0.25", "0.5">>, "0.25", "0.5">>, <<"ieeeremainder", <<"1", "0.3">>, "0.09999", "0.10001">>,
              <<"ieeeremainder", <<"0.3", "1">>, "0.29999", "0.30001">> >>
Strs == R({"string_create", "string_concatenate", "string_get_length", "string_equal", "string_get_data", "string_update_reference_count"})
RecInt == RN("int_record_output")
RecBool == RN("bool_record_output")
RecDbl == RN("double_record_output")
Msg == RN("message")
(* Turns of a qubit about an axis: functions and by how many quarters (t: a half of one, so twice; rotations either way). *)
Turning(axis, ctl) ==
  LET n(x) == IF ctl THEN x \o "__ctl" ELSE x \o "__body"
      m(x) == IF ctl THEN x \o "__ctladj" ELSE x \o "__adj"
      any == <<<<n("r" \o axis), 1>>, <<n("r" \o axis), -1>>, <<n("r"), 1>>, <<n("r"), -1>>, <<m("r"), 1>>, <<m("r"), -1>>,
               <<n("exp"), 1>>, <<n("exp"), -1>>, <<m("exp"), 1>>, <<m("exp"), -1>>>>
  IN CASE axis = "z" -> any \o <<<<n("s"), 1>>, <<m("s"), -1>>, <<n("t"), 1>>, <<m("t"), -1>>, <<n("s"), 1>>, <<m("s"), -1>>>>
       [] axis = "x" -> any \o (IF ctl THEN <<>> ELSE <<<<"sx__body", 1>>, <<"sx__body", 1>>>>)
       [] OTHER -> any
Arrays == {"exp__body", "exp__adj", "exp__ctl", "exp__ctladj"}
Tupled == {"rx__ctl", "ry__ctl", "rz__ctl", "r__ctl", "r__ctladj", "exp__ctl", "exp__ctladj"}
(* a slice: the range, and which of three elements it has *)
Ranges == <<<<0, 1, 2, <<1, 2, 3>>>>, <<2, -1, 0, <<3, 2, 1>>>>, <<0, 2, 2, <<1, 3>>>>, <<1, 1, 0, <<>>>>, <<2, -2, 0, <<3, 1>>>>,
            <<1, 1, 1, <<2>>>>, <<0, 3, 2, <<1>>>>, <<1, 1, 2, <<2, 3>>>>>>
Seen(l) == {l[k] : k \in 1..Len(l)}
UseNames(o) ==
  CASE o.nm = "strings" -> Strs \cup {Msg, RecInt, RecBool}
    [] o.nm = "texts" -> R({"int_to_string", "bool_to_string", "double_to_string", "pauli_to_string", "qubit_to_string"}) \cup {Msg}
    [] o.nm = "big" -> R(BigNames(o.d)) \cup R({"bigint_create_i64"} \cup (IF o.d \in Sums!Tests THEN {} ELSE {"bigint_to_string", "bigint_update_reference_count"}))
                       \cup (IF o.d \in Sums!Tests THEN {RecBool} ELSE {Msg})
    [] o.nm = "array" -> R({"array_create_1d", "array_copy", "array_concatenate", "array_get_size_1d", "array_get_element_ptr_1d",
                            "array_update_alias_count", "array_update_reference_count"}) \cup {RecInt}
    [] o.nm = "tuple" -> R({"tuple_create", "tuple_copy", "tuple_update_alias_count", "tuple_update_reference_count"}) \cup {RecInt}
    [] o.nm = "callable" -> R({"callable_create", "callable_copy", "callable_invoke", "callable_make_adjoint", "callable_make_controlled",
                               "callable_update_alias_count", "callable_update_reference_count", "capture_update_alias_count",
                               "capture_update_reference_count", "array_create_1d", "array_get_size_1d", "tuple_create"}) \cup (IF o.q[2] = 0 THEN {} ELSE R({"array_get_element_ptr_1d"})) \cup {RecInt}
    [] o.nm = "math" -> LET e == Exact[o.r] IN Q({e[1] \o "__body"}) \cup {CASE e[3] = "dbl" -> RecDbl [] e[3] = "int" -> RecInt [] OTHER -> RecBool}
    [] o.nm = "between" -> Q({o.d \o "__body"}) \cup {RecBool}
    [] o.nm = "memory" -> R({"memory_allocate"}) \cup {RecInt}
    [] o.nm = "results" -> R({"result_equal", "result_get_one", "result_get_zero", "result_to_string", "result_update_reference_count"}) \cup {RecBool, Msg}
    [] o.nm = "turns" -> Q({g[1] : g \in Seen(o.l)} \cup (IF o.d = "z" THEN {"h__body"} ELSE {}))
                         \cup (IF o.r > 0 \/ \E g \in Seen(o.l) : g[1] \in Arrays THEN R({"array_create_1d", "array_get_element_ptr_1d"}) ELSE {})
                         \cup (IF \E g \in Seen(o.l) : g[1] \in Tupled THEN R({"tuple_create"}) ELSE {})
    [] o.nm = "flips" -> Q({o.d \o "__ctl"} \cup (IF o.d = "h" THEN {"z__body"} ELSE {})) \cup R({"array_create_1d"})
                         \cup (IF o.r = 0 THEN {} ELSE R({"array_get_element_ptr_1d"}))
    [] o.nm = "exp" -> Q({g[1] : g \in Seen(o.l)}) \cup R({"array_create_1d", "array_get_element_ptr_1d"})
                       \cup (IF \E g \in Seen(o.l) : g[1] \in Tupled THEN R({"tuple_create"}) ELSE {})
    [] o.nm = "bytes" -> R({"bigint_create_array", "bigint_get_length", "bigint_get_data", "bigint_to_string"}) \cup {Msg, RecInt}
    [] o.nm = "range" -> {"quantum__rt__range_to_string", "quantum__rt__array_slice_1d"}
                         \cup R({"array_create_1d", "array_get_element_ptr_1d", "array_get_size_1d"}) \cup {Msg, RecInt}
    [] o.nm = "measure" -> Q({"measure__body", IF o.r = 0 THEN "assertmeasurementprobability__body" ELSE "assertmeasurementprobability__ctl"})
                           \cup R(IF o.r = 0 THEN {} ELSE {"tuple_create"}) \cup R({"array_create_1d", "array_get_element_ptr_1d", "result_to_string", "string_create"}) \cup {Msg}
    [] o.nm = "qarr" -> Q({"x__ctl"}) \cup R({"qubit_allocate_array", "qubit_release_array", "array_get_size_1d"}) \cup {RecInt}
                        \cup (IF o.r = 0 THEN {} ELSE Q({"x__body", "reset__body"}) \cup R({"array_get_element_ptr_1d"}))
    [] o.nm = "loop" -> {o.d}
    [] o.nm = "dump" -> Q({"dumpmachine__body"})
I64At(o, k) == SubSeq(o.in, 8 * k - 7, 8 * k)
ParityOf(o, b) == (IF o.q[1] \in b THEN 1 ELSE 0) + (IF o.q[2] \in b THEN 1 ELSE 0)
Items(o, b) ==
  CASE o.nm = "strings" -> <<<<"msg", o.l[1] \o o.l[2]>>, <<"int", <<ToString(Len(Bytes(o.l[1])) + Len(Bytes(o.l[2])))>>>>,
                             <<"bool", o.l[1] = o.l[2]>>, <<"msg", o.l[1] \o o.l[2]>>>>
    [] o.nm = "texts" -> <<<<"txt", I64Text(I64At(o, 1))>>, <<"txt", BoolText(o.r % 2 = 1)>>, <<"txt", o.l[1]>>, <<"txt", PauliText(o.r \div 2)>>,
                           <<"txt", <<ToString(o.q[1])>>>>>>
    [] o.nm = "big" -> LET x == FromBytes(I64At(o, 1))  y == FromBytes(I64At(o, 2)) IN
                       <<IF o.d \in Sums!Tests THEN <<"bool", Sums!Test(o.d, x, y)>> ELSE <<"txt", <<Dec(Sums!Value(o.d, x, y, o.r))>>>>>>
    [] o.nm = "array" -> LET v(k) == <<"int", I64Text(I64At(o, k))>> IN
                         <<<<"int", <<"4">>>>, v(1), v(2), v(1), v(3)>>
    [] o.nm = "tuple" -> LET v(k) == <<"int", I64Text(I64At(o, k))>> IN <<v(1), v(3), v(2)>>
    [] o.nm = "callable" -> LET n(k) == <<"int", <<ToString(k)>>>>  x == n(o.q[1] + o.q[3] + (IF o.r % 2 = 1 THEN 1000 ELSE 0)) IN
                            <<n(o.q[3] + 5), n(2 * o.q[3] - 2)>> \o (IF o.r > 1 THEN <<n(o.q[2]), x>> ELSE <<x>>)
    [] o.nm = "bytes" -> LET x == FromBytes(o.in)  n == Len(ToBytes(x)) IN
                         <<<<"int", <<ToString(n)>>>>, <<"int", <<ToString(ToBytes(x)[n])>>>>, <<"txt", <<Dec(x)>>>>>>
    [] o.nm = "range" -> LET e == Ranges[o.r] IN
                         <<<<"txt", RangeText(FromBytes(I64At(o, 1)), FromBytes(I64At(o, 2)), FromBytes(I64At(o, 3)))>>, <<"int", <<ToString(Len(e[4]))>>>>>>
                         \o [k \in 1..Len(e[4]) |-> <<"int", I64Text(I64At(o, e[4][k]))>>]
    [] o.nm = "math" -> LET e == Exact[o.r] IN <<IF e[3] = "bool" THEN <<"bool", e[4] = "true">> ELSE <<e[3], <<e[4]>>>>>>
    [] o.nm = "between" -> <<<<"bool", TRUE>>>>
    [] o.nm = "memory" -> <<<<"int", I64Text(I64At(o, 1))>>>>
    [] o.nm = "results" -> <<<<"bool", o.r \in {0, 3}>>, <<"txt", ResultText(o.r % 2)>>>>
    [] o.nm = "measure" -> <<<<"txt", ResultText(ParityOf(o, b) % 2)>>>>
    [] o.nm = "qarr" -> <<<<"int", <<ToString(o.r)>>>>>>
    [] o.nm = "dump" -> <<<<"dump">>>>
    [] OTHER -> <<>>
(* how it leaves the qubits *)
Flips(p) == p \in {1, 3}        \* X and Y
After(o, b, own) ==
  CASE o.nm = "turns" ->
         LET by(g) == IF g[1] \in {"x__body", "y__body", "z__body", "x__ctl", "y__ctl", "z__ctl"}
                      THEN (IF QN(g[1]) = own THEN 0 ELSE 2) ELSE g[2]
             all == FoldLeft(LAMBDA n, g : n + by(g), 0, o.l)
         IN IF all % 4 = 2 /\ \A k \in 1..o.r : o.q[k] \in b THEN Toggle(b, o.q[3]) ELSE b
    [] o.nm = "flips" -> IF (\A k \in 1..o.r : o.q[k] \in b) /\ (o.d # "h" \/ own # QN("z__body")) THEN Toggle(b, o.q[3]) ELSE b
    \* two halves, or one and back
    [] o.nm = "exp" ->
         LET c == IF Flips(o.r % 4) THEN Toggle(b, o.q[1]) ELSE b IN
         IF (o.l[1][1] \in {"exp__ctl", "exp__ctladj"} /\ o.q[3] \notin b) \/ o.l[1][2] # o.l[2][2] THEN b
         ELSE IF Flips(o.r \div 4) THEN Toggle(c, o.q[2]) ELSE c
    \* controls that are all one
    [] o.nm = "qarr" -> IF own = QN("x__body") /\ o.r > 0 THEN b ELSE Toggle(b, o.q[1])
    [] o.nm = "loop" -> IF o.r % 2 = 0 \/ o.d = own THEN b ELSE Apply(o.d, o.q, b)
    [] OTHER -> b
AnyUse == <<"strings", "texts", "big", "big", "big", "array", "tuple", "callable", "callable", "math", "math", "between", "memory", "turns", "turns",
            "turns", "turns", "flips", "flips", "exp", "exp", "bytes", "range", "loop", "dump", "dump">>
DynUse == AnyUse \o <<"results", "measure", "qarr", "qarr">>
Use(dyn) ==
  TLCEval(LET nm == Pick(IF dyn THEN DynUse ELSE AnyUse)  p == Pick(Perms)  x == I64(0)  y == I64(0)  z == I64(0)  t1 == Txt(0)  t2 == Txt(0)
              d == Double(0)  op == Pick(BigOps)
              U(q, r, in, e, l) == O("use", nm, q, r, in, e, l)
          IN CASE nm = "strings" -> U(<<>>, 0, <<>>, "", <<t1, IF RandomElement(0..1) = 0 THEN t1 ELSE t2>>)
               [] nm = "texts" -> U(<<RandomElement(0..70)>>, RandomElement(0..7), x, d.d, <<d.t>>)
               [] nm = "big" -> LET w == IF RandomElement(0..3) = 0 THEN x ELSE y
                                    o1 == IF op \in Sums!Dividing /\ FromBytes(w).s = 0 THEN "sub" ELSE op IN
                                U(<<>>, Pick(<<0, 1, 2, 3, 5, 9>>), x \o w, o1, <<>>)
               [] nm \in {"array", "tuple"} -> U(<<>>, 0, x \o y \o z, "", <<>>)
               [] nm = "callable" -> U(<<RandomElement(0..99), RandomElement(0..2), RandomElement(0..50)>>, RandomElement(0..3), <<>>, "", <<>>)
               [] nm = "math" -> LET e == RandomElement(1..Len(Exact)) IN U(<<>>, e, <<>>, Exact[e][1], Exact[e][2])
               [] nm = "between" -> LET e == Pick(Between) IN U(<<>>, Len(e[2]), <<>>, e[1], e[2] \o <<e[3], e[4]>>)
               [] nm = "memory" -> U(<<>>, 0, x, "", <<>>)
               [] nm = "results" -> U(<<>>, RandomElement(0..3), <<>>, "", <<>>)
               [] nm = "measure" -> U(p, RandomElement(0..1), <<>>, "", <<>>)
               [] nm = "turns" -> LET axis == Pick(<<"x", "y", "z", "z">>)  r == Pick(<<0, 0, 1, 1, 2>>)  seq == Turning(axis, r > 0)
                                      n == Pick(<<2, 2, 4>>)
                                      half == <<axis \o (IF r > 0 THEN "__ctl" ELSE "__body"), 2>>
                                  IN U(p, r, <<>>, axis, TLCEval([w \in 1..n |-> Pick(seq)]) \o (IF RandomElement(0..2) = 0 THEN <<half>> ELSE <<>>))
               [] nm = "flips" -> U(p, RandomElement(0..2), <<>>, Pick(<<"x", "y", "h">>), <<>>)
               [] nm = "exp" -> LET e == Pick(<<<<"exp__body", "exp__adj">>, <<"exp__body", "exp__adj">>, <<"exp__ctl", "exp__ctladj">>>>) IN
                                U(p, RandomElement(0..15), <<>>, "", TLCEval([w \in 1..2 |-> LET k == RandomElement(1..2) IN <<e[k], 3 - 2 * k>>]))
               [] nm = "bytes" -> U(<<>>, 0, I64(0), "", <<>>)
               [] nm = "range" -> U(<<>>, RandomElement(1..Len(Ranges)), x \o (IF RandomElement(0..2) = 0 THEN <<1, 0, 0, 0, 0, 0, 0, 0>> ELSE y) \o z, "", <<>>)
               [] nm = "qarr" -> U(p, RandomElement(0..3), <<>>, "", <<>>)
               [] nm = "loop" -> U(p, RandomElement(1..6), <<>>, Pick(<<QN("x__body"), QN("y__body"), QN("cnot__body"), QN("z__body")>>), <<>>)
               [] OTHER -> U(p, 0, <<>>, "", <<>>))

(* ------------------------------- programs ------------------------------ *)
(* fake: how many in ten programs refer to some other function, in code    *)
(* that is never reached                                                   *)
Piece(dyn, helpers) ==
  TLCEval(LET k == RandomElement(0..23) IN
  CASE k < 8 -> <<Gate(0)>>
    [] k < 12 -> <<Meas(dyn)>>
    [] k < 16 -> <<Rec(dyn)>>
    [] k = 16 -> <<Cond(dyn)>>
    [] k = 17 -> IF dyn THEN <<N0("asm", "llvm.donothing")>> ELSE <<O("wr", RN("write_result"), <<>>, Pick(ResIds), <<RandomElement(0..1)>>, "", <<>>)>>
    [] k = 18 -> IF helpers = {} \/ dyn THEN <<N0("bar", QN("barrier__body"))>>
                 ELSE <<O("call", "", <<>>, RandomElement(helpers), <<>>, "", <<>>)>>
    [] k > 19 -> LET u == Use(dyn) IN
                 \* sometimes the controls are one for sure
                 (IF u.nm \in {"turns", "flips"} /\ RandomElement(0..1) = 0
                  THEN FlattenSeq(TLCEval([x \in 1..u.r |-> <<O("g", Reset, <<u.q[x]>>, 0, <<>>, "", <<>>), O("g", QN("x__body"), <<u.q[x]>>, 0, <<>>, "", <<>>)>>]))
                  ELSE <<>>) \o <<u>>
    [] OTHER -> IF dyn \/ helpers = {} THEN <<Meas(dyn)>> ELSE <<N0("init", RN("initialize")), Meas(dyn)>>)
Pieces(n, dyn, helpers) == TLCEval(LET all == [x \in 1..n |-> Piece(dyn, helpers)] IN FoldLeft(LAMBDA s, p : s \o p, <<>>, all))
(* how the qubits are in the end *)
Look(dyn) == TLCEval(IF RandomElement(0..3) = 0 THEN <<>>
                     ELSE LET r(q) == IF dyn THEN q % 2 ELSE ResIds[2 * q + 1]
                              at(q) == <<O("m", IF dyn THEN M ELSE QN("mz__body"), <<q>>, r(q), <<>>, "", <<>>),
                                         O("rec", RN("result_record_output"), <<>>, r(q), <<>>, "", <<>>)>>
                          IN at(0) \o at(1) \o at(2))
FailOp(u) == LET t == Txt(0) IN TLCEval(O("fail", RN("fail"), <<>>, 0, Bytes(t), "", <<t>>))
Refs(fakes) == TLCEval(IF RandomElement(0..9) < fakes THEN [x \in 1..RandomElement(1..2) |-> Fake(0)] ELSE <<>>)

AttrKeys == <<"0", "A", "EntryPoint", "Z z", "a", "a_b", "aa", "entry_point", "output_labeling_schema", "qir_profiles",
              "required_num_qubits", "required_num_results", "~">>
AttrVal(u) == TLCEval(LET k == RandomElement(0..3) n == RandomElement(1..8) IN IF k = 0 THEN <<>> ELSE [x \in 1..n |-> RandomElement(32..126)])
Attrs(tags) == TLCEval(LET use == [x \in 1..Len(AttrKeys) |-> IF AttrKeys[x] \in {"entry_point", "EntryPoint"} THEN AttrKeys[x] \in tags
                                                              ELSE RandomElement(0..3) = 0]
                           vals == [x \in 1..Len(AttrKeys) |-> AttrVal(0)]
                       IN  FoldLeft(LAMBDA s, x : IF use[x] THEN Append(s, <<AttrKeys[x], vals[x]>>) ELSE s, <<>>, [x \in 1..Len(AttrKeys) |-> x]))
Tags(u) == TLCEval(Pick(<<{"entry_point"}, {"entry_point"}, {"EntryPoint"}, {"entry_point", "EntryPoint"}>>))
Names == <<"main", "Main__Interop", "e1", "_entry", "a.b", "ENTRYPOINT__main", "zz">>

Fn(nm, tags, params, internal, body) ==
  [nm |-> nm, entry |-> tags # {}, attrs |-> Attrs(tags), params |-> params, internal |-> internal, body |-> body]
(* numbers of static qubits *)
Numbers == <<<<0, 1, 2>>, <<2, 0, 5>>, <<66, 1, 3>>>>
(* entry points first, then helpers, each of which calls only later ones; in the text they are in the order given *)
Prog(u) ==
  TLCEval(
  LET dyn == RandomElement(0..3) = 0
      old == RandomElement(0..3) = 0
      \* an entry point may return a number, which is ignored
      ret == Pick(<<"", "", "", "0", "7">>)
      ne == Pick(<<1, 1, 1, 1, 1, 2, 2, 3, 0>>)
      nh == IF dyn THEN 0 ELSE RandomElement(0..2)
      nms == Pick(<<<<1, 2, 3>>, <<7, 3, 5>>, <<4, 1, 6>>, <<2, 5, 7>>>>)
      fakes == Pick(<<0, 0, 4>>)
      ent(k) == Fn(Names[nms[k]], Tags(0), IF RandomElement(0..30) = 0 THEN 1 ELSE 0, FALSE,
                   <<Meas(dyn)>> \o Pieces(RandomElement(1..7), dyn, (ne + 1)..(ne + nh)) \o (IF RandomElement(0..24) = 0 THEN <<FailOp(0)>> \o Pieces(1, dyn, {}) ELSE <<>>) \o Look(dyn) \o Refs(fakes))
      hlp(k) == Fn("h" \o ToString(k), {}, 0, RandomElement(0..1) = 0,
                   Pieces(RandomElement(0..4), dyn, (ne + k + 1)..(ne + nh)) \o Refs(fakes))
      fs == [k \in 1..(ne + nh) |-> IF k <= ne THEN ent(k) ELSE hlp(k - ne)]
      one == TLCEval(fs)
  IN [funcs |-> one, dyn |-> dyn, old |-> old, release |-> RandomElement(0..1) = 0,
      mixed |-> IF RandomElement(0..7) = 0 THEN RandomElement(Either) ELSE "",
      own |-> IF RandomElement(0..5) = 0 THEN RandomElement({QN("x__body"), Reset, Swap, QN("cnot__body"), QN("z__body")}) ELSE "",
      unused |-> [x \in 1..RandomElement(0..2) |-> Fake(0)], ret |-> ret, ids |-> Pick(Numbers), seed |-> RandomElement(1..1000000)])

(* What a dump writes: the results in use, up to the last that is one, and  *)
(* the state, which is a single number; a qubit is the bit that its number  *)
(* says, and those of a dynamic program are numbered as they are allocated. *)
Shown(p, b, r) ==
  LET id(q) == IF p.dyn THEN q ELSE p.ids[q + 1]
      part(q, k) == IF q \in b /\ id(q) \div 8 = k THEN 2 ^ (id(q) % 8) ELSE 0
      ket == FromBytes([k \in 1..10 |-> part(0, k - 1) + part(1, k - 1) + part(2, k - 1)])
      last == IF r.ones = {} THEN -1 ELSE CHOOSE x \in r.ones : \A y \in r.ones : y <= x
  IN (IF p.dyn \/ ~r.used THEN <<>>
      ELSE <<"Global Results: [">> \o [x \in 1..(last + 1) |-> (IF x = 1 THEN "" ELSE ", ") \o (IF x - 1 \in r.ones THEN "1" ELSE "0")] \o <<"]">> \o <<10>>)
     \o <<"STATE: [ |", Dec(ket), 226, 159, 169, ": 1+0i, ]", 10>>

(* the functions an operation refers to, and with how many parameters *)
Size(p, nm) == IF nm \in Either THEN (IF p.old = (p.mixed # nm) THEN 1 ELSE 2)
               ELSE IF nm = M THEN (IF p.dyn THEN 1 ELSE 2)
               ELSE CHOOSE n \in 0..MaxParams : Linkable(nm, n)
FrameNames(p, o) == IF p.old THEN {RN(o.nm \o "_start_record_output"), RN(o.nm \o "_end_record_output")} ELSE {RN(o.nm \o "_record_output")}
OpNames(p, o) ==
  CASE o.op \in {"g", "m", "rec", "wr", "bar", "init"} -> {o.nm}
    [] o.op = "if" -> {o.nm, QN("x__body")} \cup (IF o.nm = RN("result_equal") THEN {RN("result_get_one")} ELSE {})
    [] o.op = "msg" -> {o.nm, RN("string_create")}
    [] o.op = "frame" -> FrameNames(p, o)
    [] o.op = "use" -> UseNames(o)
    [] o.op = "fail" -> {o.nm, RN("string_create")}
    [] OTHER -> {}
Uses(p, f) ==
  UNION {OpNames(p, f.body[x]) : x \in 1..Len(f.body)}
  \cup (IF p.dyn THEN R({"qubit_allocate", "result_get_zero"}) \cup (IF p.release THEN R({"qubit_release"}) ELSE {}) ELSE {})
FnRefs(f) == {<<f.body[x].nm, f.body[x].r>> : x \in {y \in 1..Len(f.body) : f.body[y].op = "ref"}}
Calls(f) == {f.body[x].r : x \in {y \in 1..Len(f.body) : f.body[y].op = "call"}}
RECURSIVE Reach(_, _)
Reach(p, s) == LET t == s \cup UNION {Calls(p.funcs[k]) : k \in s} IN IF t = s THEN s ELSE Reach(p, t)
Live(p) == Reach(p, {k \in 1..Len(p.funcs) : ~p.funcs[k].internal})
(* a function is declared once, for all of the program *)
AllRefs(p) == UNION {FnRefs(p.funcs[k]) : k \in 1..Len(p.funcs)} \cup {<<p.unused[x].nm, p.unused[x].r>> : x \in 1..Len(p.unused)}
Declared(p) ==
  LET refs == AllRefs(p)
      used == UNION {Uses(p, p.funcs[k]) : k \in 1..Len(p.funcs)}
      \* what a program calls it declares as it calls it, or wrongly
      of(nm) == {r \in refs : r[1] = nm /\ (nm \notin used \/ ~Linkable(nm, r[2]))}
  IN  [nm \in {r[1] : r \in refs} \cup used |-> IF of(nm) = {} THEN Size(p, nm) ELSE (CHOOSE r \in of(nm) : TRUE)[2]]
Needed(p) == UNION {Uses(p, p.funcs[k]) \cup {r[1] : r \in FnRefs(p.funcs[k])} : k \in Live(p)} \ {p.own}
Mixed(d, need) == /\ \E nm \in need : IsOld(nm, d[nm])
                  /\ \E nm \in need : IsNew(nm, d[nm])
Right(p) == LET d == Declared(p)  need == Needed(p) IN (\A nm \in need : Linkable(nm, d[nm])) /\ ~Mixed(d, need)

(* ------------------------------- requests ------------------------------ *)
Files == <<"ll", "bc", "bcll", "cli-ll", "cli-bc">>
Texts == <<"bytes", "bcbytes", "bitcode", "input", "cli-stdin", "cli-dash">>
FileHarm == <<"ext", "noext", "upper", "missing", "dir", "textbc">>
Harm == <<"garbage", "empty", "short", "cut", "cut", "verify">>
CliHarm == <<"shots", "option", "seed", "extra", "novalue">>
FormList == Files \o Texts
Short(p) == \A k \in 1..Len(p.funcs) : Len(p.funcs[k].body) < 25 /\ \A x \in 1..Len(p.funcs[k].body) : p.funcs[k].body[x].op # "use"
                                                                        /\ Len(ToString(p.funcs[k].body[x].l)) < 150
(* a program that may fail must have a process of its own *)
Fails(p) == \E k \in 1..Len(p.funcs) : \E x \in 1..Len(p.funcs[k].body) : p.funcs[k].body[x].op = "fail"
Request(p) ==
  TLCEval(LET f == IF Fails(p) THEN Pick(<<"cli-ll", "cli-bc", "cli-stdin", "cli-dash">>) ELSE Pick(FormList)
              file == \E x \in 1..Len(Files) : Files[x] = f
              cli == f \in {"cli-ll", "cli-bc", "cli-stdin", "cli-dash"}
              k == RandomElement(0..29)
              names == <<"", "h1", "nobody", "mai", "main ">> \o [x \in 1..Len(p.funcs) |-> p.funcs[x].nm]
              many == Len(SelectSeq(p.funcs, LAMBDA x : x.entry)) > 1
          IN [form |-> f, shots |-> LET z == RandomElement(0..399) IN
                        CASE z < 8 -> Pick(<<100, 255, 256, 257, 300>>)
                          [] z < 10 -> IF Short(p) THEN Pick(<<32768, 65536, 70000>>) ELSE 1
                          [] OTHER -> Pick(<<0, 1, 1, 1, 2, 2, 3, 5>>),
              filter |-> IF many /\ RandomElement(0..3) > 0 THEN <<p.funcs[RandomElement(1..2)].nm>>
                         ELSE IF RandomElement(0..3) = 0 THEN <<Pick(names)>> ELSE <<>>,
              seed |-> IF RandomElement(0..1) = 0 THEN <<>> ELSE <<RandomElement(0..1000000)>>,
              harm |-> CASE k = 0 -> Pick(Harm) [] k = 1 /\ file -> Pick(FileHarm) [] k = 2 /\ cli -> Pick(CliHarm) [] OTHER -> "",
              style |-> RandomElement(0..7)])
Chosen == {k \in 1..Len(prog.funcs) : prog.funcs[k].entry /\ (req.filter = <<>> \/ req.filter[1] = prog.funcs[k].nm)}
Entry == CHOOSE k \in Chosen : TRUE

(* ------------------------------ behaviour ------------------------------ *)
NL == <<10>>
Tab == <<9>>
Record(ty, val, l) == <<"OUTPUT">> \o Tab \o <<ty>> \o Tab \o val \o (IF l = <<>> THEN <<>> ELSE Tab \o l[1]) \o NL
Old(val) == <<"RESULT">> \o Tab \o val \o NL
Metadata(f) == FoldLeft(LAMBDA s, a : s \o <<"METADATA">> \o Tab \o <<a[1]>> \o (IF a[2] = <<>> THEN <<>> ELSE Tab \o a[2]) \o NL, <<>>, f.attrs)

Copies(q) == IF q.shots > 1000 THEN q.shots ELSE 1
NoReq == [form |-> "", shots |-> 0, filter |-> <<>>, seed |-> <<>>, harm |-> "", style |-> 0]
NoProg == [funcs |-> <<>>]
Init == /\ phase = "idle" /\ prog = NoProg /\ req = NoReq /\ left = 0 /\ stack = <<>> /\ bits = {}
        /\ res = [used |-> FALSE, ones |-> {}] /\ out = <<>> /\ dead = FALSE /\ hist = <<>>
Submit ==
  /\ phase = "idle" /\ Len(hist) < Runs
  /\ \E p \in {Prog(0)} : \E r \in {Request(p)} : prog' = p /\ req' = r
  /\ phase' = "given" /\ out' = <<>> /\ dead' = FALSE
  /\ UNCHANGED <<left, stack, bits, res, hist>>
Finish(verdict) ==
  LET d == Declared(prog) IN
  /\ hist' = Append(hist, [p |-> prog, req |-> req, verdict |-> verdict, out |-> out, times |-> IF verdict = "ran" THEN Copies(req) ELSE 1,
                           decl |-> {[nm |-> nm, n |-> d[nm]] : nm \in DOMAIN d}])
  /\ phase' = "idle" /\ prog' = NoProg /\ req' = NoReq /\ stack' = <<>>
  /\ UNCHANGED <<left, bits, res, out, dead>>
Reject ==
  /\ phase = "given"
  /\ req.harm # "" \/ ~Right(prog) \/ Cardinality(Chosen) # 1
  /\ Finish("rejected")
Accept ==
  /\ phase = "given"
  /\ req.harm = "" /\ Right(prog) /\ Cardinality(Chosen) = 1
  /\ phase' = "shots" /\ left' = req.shots
  /\ UNCHANGED <<prog, req, stack, bits, res, out, dead, hist>>
\* an entry point must not have parameters: the program does not run
Refuse ==
  /\ phase = "shots" /\ left > 0 /\ prog.funcs[Entry].params > 0
  /\ Finish("refused")
Shot ==
  /\ phase = "shots" /\ left > 0 /\ (left > 20 => left = req.shots) /\ prog.funcs[Entry].params = 0
  /\ phase' = "shot" /\ left' = left - 1 /\ stack' = <<<<Entry, 1>>>>
  /\ bits' = {} /\ res' = [used |-> FALSE, ones |-> {}]
  /\ out' = out \o <<"START">> \o NL \o Metadata(prog.funcs[Entry])
  /\ UNCHANGED <<prog, req, dead, hist>>
(* A long run in one step, once one shot has been seen: they are all alike; *)
(* of a very long one only that shot is kept.                                *)
Rush ==
  /\ phase = "shots" /\ left > 20 /\ left < req.shots
  /\ LET one == TLCEval(SubSeq(out, (Len(out) \div (req.shots - left)) * (req.shots - left - 1) + 1, Len(out))) IN
     out' = IF Copies(req) > 1 THEN out ELSE TLCEval(out \o FlattenSeq([x \in 1..left |-> one]))
  /\ left' = 0
  /\ UNCHANGED <<phase, prog, req, stack, bits, res, dead, hist>>
Value(r) == IF prog.dyn \/ res.used THEN r \in res.ones ELSE r = 1
Bit(b) == <<IF b THEN "1" ELSE "0">>
Exec(o) ==
  CASE o.op = "g" -> /\ bits' = IF o.nm = prog.own THEN bits ELSE Apply(o.nm, o.q, bits)
                     /\ UNCHANGED <<res, out>>
    [] o.op = "m" -> /\ res' = [used |-> TRUE, ones |-> IF o.q[1] \in bits THEN res.ones \cup {o.r} ELSE res.ones \ {o.r}]
                     /\ bits' = IF o.nm = QN("mresetz__body") THEN bits \ {o.q[1]} ELSE bits
                     /\ UNCHANGED out
    [] o.op = "if" -> /\ bits' = IF Value(o.r) /\ prog.own # QN("x__body") THEN Toggle(bits, o.q[1]) ELSE bits
                      /\ UNCHANGED <<res, out>>
    [] o.op = "wr" -> /\ res' = [used |-> TRUE, ones |-> IF o.in[1] = 1 THEN res.ones \cup {o.r} ELSE res.ones \ {o.r}]
                      /\ UNCHANGED <<bits, out>>
    [] o.op = "init" -> /\ bits' = {} /\ res' = [used |-> FALSE, ones |-> {}] /\ UNCHANGED out
    [] o.op = "msg" -> out' = out \o <<"INFO">> \o Tab \o Escape(o.l[1]) \o NL /\ UNCHANGED <<bits, res>>
    [] o.op = "frame" ->
         /\ out' = out \o (IF prog.old THEN Old(<<IF o.nm = "array" THEN "ARRAY_START" ELSE "TUPLE_START">>)
                                            \o Old(<<IF o.nm = "array" THEN "ARRAY_END" ELSE "TUPLE_END">>)
                           ELSE Record(IF o.nm = "array" THEN "ARRAY" ELSE "TUPLE", <<ToString(o.r)>>, o.l))
         /\ UNCHANGED <<bits, res>>
    [] o.op = "rec" ->
         LET v == CASE o.nm = RN("result_record_output") -> Bit(Value(o.r))
                    [] o.nm = RN("int_record_output") -> I64Text(o.in)
                    [] o.nm = RN("double_record_output") -> o.in
                    [] OTHER -> BoolText(o.r = 1)
             ty == CASE o.nm = RN("result_record_output") -> "RESULT" [] o.nm = RN("int_record_output") -> "INT"
                     [] o.nm = RN("double_record_output") -> "DOUBLE" [] OTHER -> "BOOL"
         IN out' = out \o (IF Size(prog, o.nm) = 1 THEN Old(v) ELSE Record(ty, v, o.l)) /\ UNCHANGED <<bits, res>>
    [] o.op = "use" ->
         LET written(x) == CASE x[1] = "dump" -> TLCEval(Shown(prog, bits, res))
                             [] x[1] = "msg" -> <<"INFO">> \o Tab \o Escape(x[2]) \o NL
                             [] x[1] = "txt" -> <<"INFO">> \o Tab \o x[2] \o NL
                             [] x[1] = "bool" -> IF Size(prog, RecBool) = 1 THEN Old(BoolText(x[2])) ELSE Record("BOOL", BoolText(x[2]), <<>>)
                             [] x[1] = "int" -> IF Size(prog, RecInt) = 1 THEN Old(x[2]) ELSE Record("INT", x[2], <<>>)
                             [] OTHER -> IF Size(prog, RecDbl) = 1 THEN Old(x[2]) ELSE Record("DOUBLE", x[2], <<>>)
         IN /\ out' = FoldLeft(LAMBDA s, x : s \o written(x), out, Items(o, bits))
            /\ bits' = After(o, bits, prog.own) /\ UNCHANGED res
    [] OTHER -> UNCHANGED <<bits, res, out>>
Failing == phase = "shot" /\ stack # <<>> /\
  LET top == stack[Len(stack)]  body == prog.funcs[top[1]].body IN top[2] <= Len(body) /\ body[top[2]].op = "fail"
(* The program fails: its message is the last line, and it ends. *)
Fail ==
  /\ Failing
  /\ LET top == stack[Len(stack)]  o == prog.funcs[top[1]].body[top[2]]  d == Declared(prog) IN
     /\ out' = out \o <<"INFO">> \o Tab \o Escape(o.l[1]) \o NL
     /\ hist' = Append(hist, [p |-> prog, req |-> req, verdict |-> "failed", out |-> out', times |-> 1, decl |-> {[nm |-> nm, n |-> d[nm]] : nm \in DOMAIN d}])
  /\ phase' = "idle" /\ prog' = NoProg /\ req' = NoReq /\ stack' = <<>>
  /\ UNCHANGED <<left, bits, res, dead>>
Step ==
  /\ ~Failing
  /\ phase = "shot" /\ stack # <<>>
  /\ LET top == stack[Len(stack)]
         rest == SubSeq(stack, 1, Len(stack) - 1)
         body == prog.funcs[top[1]].body
     IN  IF top[2] > Len(body) THEN stack' = rest /\ UNCHANGED <<bits, res, out>>
         ELSE LET o == body[top[2]]  next == Append(rest, <<top[1], top[2] + 1>>) IN
              IF o.op = "call" THEN stack' = Append(next, <<o.r, 1>>) /\ UNCHANGED <<bits, res, out>>
              ELSE stack' = next /\ Exec(o)
  /\ UNCHANGED <<phase, prog, req, left, dead, hist>>
End ==
  /\ phase = "shot" /\ stack = <<>>
  /\ out' = out \o <<"END">> \o Tab \o <<"0">> \o NL
  /\ phase' = "shots" /\ UNCHANGED <<prog, req, left, stack, bits, res, dead, hist>>
Stop == phase = "shots" /\ left = 0 /\ Finish("ran")
Next == Fail \/ Submit \/ Reject \/ Accept \/ Refuse \/ Shot \/ Rush \/ Step \/ End \/ Stop
Spec == Init /\ [][Next]_vars

(* a program that is rejected has written nothing; one that ran has one frame for each shot *)
Count(s, x) == Cardinality({k \in 1..Len(s) : ToString(s[k]) = ToString(x)})
New == IF phase = "idle" THEN {Len(hist)} \ {0} ELSE {}     \* the others have been looked at
Framed == \A k \in New :
            CASE hist[k].verdict = "rejected" -> hist[k].out = <<>>
              [] hist[k].verdict = "ran" -> LET n == hist[k].req.shots \div hist[k].times IN Count(hist[k].out, "START") = n /\ Count(hist[k].out, "END") = n
              \* the message, and no end
              [] hist[k].verdict = "failed" -> Count(hist[k].out, "START") = 1 /\ Count(hist[k].out, "END") = 0
              [] OTHER -> TRUE
(* every shot of a program without randomness writes the same *)
Same == \A k \in New : hist[k].verdict = "ran" /\ hist[k].req.shots > hist[k].times =>
          LET o == hist[k].out  n == Len(o) \div hist[k].req.shots IN
          ToString(SubSeq(o, 1, Len(o) - n)) = ToString(SubSeq(o, n + 1, Len(o)))
Emit == (Len(hist) = Runs /\ phase = "idle") => CSVWrite("%1$s", <<ToJson(hist)>>, Out)
=============================================================================
