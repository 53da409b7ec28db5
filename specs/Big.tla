--------------------------------- MODULE Big ---------------------------------
(***************************************************************************)
(* The big-integer functions of the runtime: what each must report.  An    *)
(* event e has an operation, operands a and b (integers of module Ints)    *)
(* and a small number k; the report is bytes (of an integer, shortest      *)
(* little-endian two's complement), a truth value or a text.               *)
(***************************************************************************)
EXTENDS Integers, Sequences, Ints, TLC

Binary == {"add", "sub", "mul", "and", "or", "xor"}
Dividing == {"div", "mod"}
Counted == {"pow", "shl", "shr"}
Unary == {"neg", "not", "copy"}
Tests == {"eq", "gt", "ge"}

(* the integer an operation produces *)
Value(op, a, b, k) ==
  CASE op = "add" -> Plus(a, b)
    [] op = "sub" -> Minus(a, b)
    [] op = "mul" -> Times(a, b)
    [] op = "div" -> Quot(a, b)
    [] op = "mod" -> Rem(a, b)
    [] op = "and" -> BitAnd(a, b)
    [] op = "or" -> BitOr(a, b)
    [] op = "xor" -> BitXor(a, b)
    [] op = "pow" -> Power(a, k)
    [] op = "shl" -> Shl(a, k)
    [] op = "shr" -> Shr(a, k)
    [] op = "neg" -> Neg(a)
    [] op = "not" -> BitNot(a)
    [] op = "copy" -> a
Test(op, a, b) ==
  CASE op = "eq" -> Cmp(a, b) = 0
    [] op = "gt" -> Cmp(a, b) > 0
    [] op = "ge" -> Cmp(a, b) >= 0

(* the laws that tie the definitions above to each other *)
Laws(a, b, k) ==
  /\ FromBytes(ToBytes(a)) = a
  /\ Minus(Plus(a, b), b) = a
  /\ b.s # 0 => /\ Plus(Times(Quot(a, b), b), Rem(a, b)) = a
                /\ CmpN(Rem(a, b).m, b.m) < 0
                /\ Rem(a, b).s \in {0, a.s}
  /\ Plus(BitAnd(a, b), BitOr(a, b)) = Plus(a, b)
  /\ BitXor(a, b) = Minus(BitOr(a, b), BitAnd(a, b))
  /\ Shr(Shl(a, k), k) = a
  /\ LET r == Minus(a, Shl(Shr(a, k), k)) IN r.s >= 0 /\ Cmp(r, Shl(One, k)) < 0
=============================================================================
