-------------------------------- MODULE Heap --------------------------------
(***************************************************************************)
(* The objects of the runtime: arrays, tuples, strings, big integers,      *)
(* callables and qubit arrays, each with contents, a reference count and   *)
(* (where it has one) an alias count.  An object lives exactly while its   *)
(* reference count is positive; alias counts only decide whether a copy    *)
(* must be a new object.                                                   *)
(*                                                                         *)
(* Contents are sequences of small numbers: the elements of an array of    *)
(* elements of es bytes, the bytes of a tuple or string, the identifiers   *)
(* of a qubit array, the parity of adjoints of a callable.                 *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, CSV

Aliased == {"arr", "tup", "call", "qarr", "ids"}
Range(s) == { s[n] : n \in 1..Len(s) }

(* ---- slices: the elements start, start+step, ... not beyond end ---- *)
Chosen(start, step, end) ==        \* how many are selected
  IF step > 0 THEN (IF end < start THEN 0 ELSE (end - start) \div step + 1)
  ELSE (IF end > start THEN 0 ELSE (start - end) \div (-step) + 1)
InRange(len, start, step, end) ==
  LET c == Chosen(start, step, end)
      last == start + (c - 1) * step
  IN  c = 0 \/ (start \in 0..(len - 1) /\ last \in 0..(len - 1))
Slice(d, start, step, end) ==
  [k \in 1..Chosen(start, step, end) |-> d[start + (k - 1) * step + 1]]

(* ---- the heap: a sequence of objects, dead ones included ---- *)
Obj(kind, es, d) == [kind |-> kind, es |-> es, d |-> d, rc |-> 1, al |-> 0]
Live(h) == { o \in 1..Len(h) : h[o].rc > 0 }
Add(h, ob) == Append(h, ob)
Ref(h, o, k) == [h EXCEPT ![o].rc = @ + k]
Alias(h, o, k) == [h EXCEPT ![o].al = @ + k]
Set(h, o, i, v) == [h EXCEPT ![o].d = [@ EXCEPT ![i] = v]]
FreshCopy(h, o, force) == force \/ h[o].al > 0
Copy(h, o, force) == IF FreshCopy(h, o, force) THEN Add(h, Obj(h[o].kind, h[o].es, h[o].d)) ELSE Ref(h, o, 1)

(* ---- qubits: identifiers in use, the lowest free ones come first ---- *)
RECURSIVE Lowest(_, _)
Lowest(used, n) == IF n = 0 THEN <<>>
                   ELSE LET m == CHOOSE x \in 0..(Cardinality(used) + 1) : x \notin used /\ \A y \in 0..(x - 1) : y \in used
                        IN  <<m>> \o Lowest(used \cup {m}, n - 1)
=============================================================================
