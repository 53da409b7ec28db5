-------------------------------- MODULE Link --------------------------------
(***************************************************************************)
(* What a program may call: every function of the runtime with the number  *)
(* of parameters it takes.  Four output functions exist in a current form  *)
(* (with a label) and a legacy one (without).                              *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
Q(s) == {"__quantum__qis__" \o n : n \in s}
R(s) == {"__quantum__rt__" \o n : n \in s}
Takes(n) ==
  CASE n = 0 -> Q({"barrier__body", "infinity__body", "nan__body"}) \cup R({"qubit_allocate", "result_get_one", "result_get_zero"})
    [] n = 1 -> Q({"arccos__body", "arcsin__body", "arctan__body", "cos__body", "cosh__body", "dumpmachine__body", "h__body",
                   "isinf__body", "isnan__body", "isnegativeinfinity__body", "log__body", "read_result__body", "reset__body",
                   "s__adj", "s__body", "sin__body", "sinh__body", "sqrt__body", "sx__body", "t__adj", "t__body", "tan__body",
                   "tanh__body", "x__body", "y__body", "z__body"})
                \cup R({"array_get_size_1d", "bigint_bitnot", "bigint_create_i64", "bigint_get_data", "bigint_get_length",
                        "bigint_negate", "bigint_to_string", "bool_to_string", "callable_make_adjoint",
                        "callable_make_controlled", "double_to_string", "fail", "initialize", "int_to_string",
                        "memory_allocate", "message", "pauli_to_string", "qubit_allocate_array", "qubit_release",
                        "qubit_release_array", "qubit_to_string", "read_result", "result_to_string", "string_create",
                        "string_get_data", "string_get_length", "tuple_create"})
                \cup {"quantum__rt__range_to_string"}
    [] n = 2 -> Q({"arctan2__body", "assertmeasurementprobability__ctl", "cnot__body", "cx__body", "cy__body", "cz__body",
                   "drawrandomdouble__body", "drawrandomint__body", "exp__ctl", "exp__ctladj", "h__ctl", "ieeeremainder__body",
                   "measure__body", "mresetz__body", "mz__body", "r__ctl", "r__ctladj", "rx__body", "rx__ctl", "ry__body",
                   "ry__ctl", "rz__body", "rz__ctl", "s__ctl", "s__ctladj", "swap__body", "t__ctl", "t__ctladj", "x__ctl",
                   "y__ctl", "z__ctl"})
                \cup R({"array_concatenate", "array_copy", "array_create_1d", "array_get_element_ptr_1d", "array_record_output",
                        "array_update_alias_count", "array_update_reference_count", "bigint_add", "bigint_bitand", "bigint_bitor",
                        "bigint_bitxor", "bigint_create_array", "bigint_divide", "bigint_equal", "bigint_greater",
                        "bigint_greater_eq", "bigint_modulus", "bigint_multiply", "bigint_power", "bigint_shiftleft",
                        "bigint_shiftright", "bigint_subtract", "bigint_update_reference_count", "callable_copy",
                        "callable_update_alias_count", "callable_update_reference_count", "capture_update_alias_count",
                        "capture_update_reference_count", "result_equal", "result_update_reference_count", "string_concatenate",
                        "string_equal", "string_update_reference_count", "tuple_copy", "tuple_record_output",
                        "tuple_update_alias_count", "tuple_update_reference_count", "write_result"})
    [] n = 3 -> Q({"ccx__body", "exp__adj", "exp__body", "r__adj", "r__body", "rxx__body", "ryy__body", "rzz__body"})
                \cup R({"callable_create", "callable_invoke"}) \cup {"quantum__rt__array_slice_1d"}
    [] n = 6 -> Q({"assertmeasurementprobability__body"})
    [] OTHER -> {}
\* with a label, or the legacy form without
Either == R({"bool_record_output", "double_record_output", "int_record_output", "result_record_output"})
OldOnly == R({"array_end_record_output", "array_start_record_output", "tuple_end_record_output", "tuple_start_record_output"})
NewOnly == R({"array_record_output", "tuple_record_output"})
\* with a result given, or returning one
M == "__quantum__qis__m__body"

MaxParams == 7
Links == TLCEval([n \in 0..MaxParams |-> Takes(n) \cup (IF n \in {1, 2} THEN Either \cup {M} ELSE {})
                                         \cup (IF n = 0 THEN OldOnly ELSE {})])
Linkable(nm, n) == nm \in Links[n]
All == TLCEval(UNION {Links[n] : n \in 0..MaxParams})
IsOld(nm, n) == nm \in OldOnly \/ (nm \in Either /\ n = 1)
IsNew(nm, n) == nm \in NewOnly \/ (nm \in Either /\ n = 2)
(* names that are close to those of the runtime, and others *)
Strangers == <<"__quantum__qis__x__adj", "__quantum__qis__cnot__ctl", "__quantum__qis__X__body", "__quantum__qis__x_body",
               "__quantum__qis__x__body_", "quantum__qis__x__body", "__quantum__rt__x__body", "__quantum__qis__mycustom__body",
               "__quantum__rt__qubit_borrow", "printf", "malloc", "sin", "abort", "helper", "__quantum__rt__array_slice_1d",
               "__quantum__qis__m__adj", "__quantum__rt__string_record_output", "qir_backend_set_rng_seed", "llvm",
               "__quantum__qis__llvm.x__body">>
=============================================================================
