------------------------------- MODULE Quantum -------------------------------
(***************************************************************************)
(* The ideal (eager) semantics of every operation of the simulator on a    *)
(* state vector over N qubit slots, exactly, in Z[w], up to one positive   *)
(* real factor of the whole vector.  Vectors are sequences of length 2^N;  *)
(* entry i+1 is the amplitude of the basis state whose bit q (weight 2^q)  *)
(* is the value of qubit q.                                                *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, Zomega, Bitwise, TLC

CONSTANT N                       \* number of qubit slots (ids 0..N-1)

Pow2 == [q \in 0..12 |-> 2^q]
Dim == 2^N
Idx == 0..(Dim - 1)
Ids == 0..(N - 1)
Bit(i, q) == (i \div Pow2[q]) % 2
Flip(i, q) == IF Bit(i, q) = 1 THEN i - Pow2[q] ELSE i + Pow2[q]
SetBit(i, q, b) == i - Bit(i, q) * Pow2[q] + b * Pow2[q]
Vec(f(_)) == [n \in 1..Dim |-> f(n - 1)]
Zero == [n \in 1..Dim |-> IF n = 1 THEN R1 ELSE R0]
Ran(s) == { s[n] : n \in 1..Len(s) }

(* TLCEval makes TLC compute a vector once instead of entry by entry on    *)
(* every use; it has no other meaning.                                     *)
RECURSIVE ReduceE(_)
ReduceE(v) ==
  IF \A n \in 1..Len(v) : v[n] = R0 \/ REven(v[n])
    THEN ReduceE(TLCEval([n \in 1..Len(v) |-> RHalf(v[n])]))
  ELSE IF \A n \in 1..Len(v) : RDivSqrt2able(v[n])
    THEN ReduceE(TLCEval([n \in 1..Len(v) |-> RDivSqrt2(v[n])]))
  ELSE IF \A n \in 1..Len(v) : RFive(v[n])
    THEN ReduceE(TLCEval([n \in 1..Len(v) |-> RFifth(v[n])]))
  ELSE v
Reduce(v) == ReduceE(TLCEval(v))
IsZeroVec(v) == \A n \in 1..Len(v) : v[n] = R0
MaxCoef(v) == LET RECURSIVE M(_)
                  M(n) == IF n = 0 THEN 0
                          ELSE LET a == RMax(v[n])  b == M(n - 1) IN IF a > b THEN a ELSE b
              IN  M(Len(v))

(* v and w are the same ray (equal up to a non-zero complex factor):      *)
(* v[n]*w[p] = w[n]*v[p] for a pivot p.  TLC integers have 32 bits, so     *)
(* large products are compared modulo two primes; equal rays always pass.  *)
ModR(x, m) == << x[1] % m, x[2] % m, x[3] % m, x[4] % m >>
CongR(a, b, c, d, m) ==      \* a*b = c*d modulo m
  ModR(RMul(ModR(a, m), ModR(b, m)), m) = ModR(RMul(ModR(c, m), ModR(d, m)), m)
EqProd(a, b, c, d) == CongR(a, b, c, d, 20011) /\ CongR(a, b, c, d, 19997)
SameRay(v, w) ==
  \/ v = w
  \/ LET p == CHOOSE n \in 1..Len(v) : v[n] # R0
     IN  /\ w[p] # R0
         /\ \A n \in 1..Len(v) : /\ (v[n] = R0) = (w[n] = R0)
                                /\ EqProd(v[n], w[p], w[n], v[p])

-----------------------------------------------------------------------------
(* Single-qubit matrices <<m00, m01, m10, m11, s>>: the unitary is m / s.  *)
RotX(k, j) == LET c == RCos2(k, j)  s == RNeg(RMulI(RSin2(k, j))) IN <<c, s, s, c, RScale(j)>>
RotY(k, j) == LET c == RCos2(k, j)  s == RSin2(k, j) IN <<c, RNeg(s), s, c, RScale(j)>>
RotZ(k, j) == LET z == RCis(k, j) IN <<RConj(z), R0, R0, z, RInt(IPow(5, RAbs(j)))>>

Mat(op, k, j) == TLCEval(
  CASE op = "x"  -> <<R0, R1, R1, R0, R1>>
    [] op = "y"  -> <<R0, RNeg(RI), RI, R0, R1>>
    [] op = "z"  -> <<R1, R0, R0, RNeg(R1), R1>>
    [] op = "h"  -> <<R1, R1, R1, RNeg(R1), RSqrt2>>
    [] op = "s"  -> <<R1, R0, R0, ROmega(2), R1>>
    [] op = "sa" -> <<R1, R0, R0, ROmega(6), R1>>
    [] op = "t"  -> <<R1, R0, R0, ROmega(1), R1>>
    [] op = "ta" -> <<R1, R0, R0, ROmega(7), R1>>
    [] op = "sx" -> <<RAdd(R1, RI), RSub(R1, RI), RSub(R1, RI), RAdd(R1, RI), RInt(2)>>
    [] op = "ph" -> <<R1, R0, R0, ROmega(k), R1>>
    [] op = "rx" -> RotX(k, j)
    [] op = "ry" -> RotY(k, j)
    [] op = "rz" -> RotZ(k, j))

Ctl1(v, ctls, t, M) ==
  [n \in 1..Dim |->
    LET i == n - 1
    IN  IF \A c \in ctls : Bit(i, c) = 1
        THEN IF Bit(i, t) = 0
             THEN RAdd(RMul(v[n], M[1]), RMul(v[n + Pow2[t]], M[2]))
             ELSE RAdd(RMul(v[n - Pow2[t]], M[3]), RMul(v[n], M[4]))
        ELSE IF M[5] = R1 THEN v[n] ELSE RMul(v[n], M[5])]

(* Pauli strings: ps[m] acts on ts[m].                                     *)
XMask(ps, ts) == LET RECURSIVE S(_)
                     S(m) == IF m = 0 THEN 0
                             ELSE S(m - 1) + (IF ps[m] \in {"X", "Y"} THEN Pow2[ts[m]] ELSE 0)
                 IN  S(Len(ps))
(* P |i> = PPhase(i) |i xor XMask>                                         *)
PPhase(ps, ts, i) ==
  LET RECURSIVE S(_)
      S(m) == IF m = 0 THEN 0
              ELSE S(m - 1) + (CASE ps[m] = "Y" -> IF Bit(i, ts[m]) = 0 THEN 2 ELSE 6
                                 [] ps[m] = "Z" -> IF Bit(i, ts[m]) = 0 THEN 0 ELSE 4
                                 [] OTHER -> 0)
  IN  ROmega(S(Len(ps)))
PauliApply(v, ps, ts) ==
  LET xm == XMask(ps, ts)
  IN  [n \in 1..Dim |-> LET src == (n - 1) ^^ xm IN RMul(v[src + 1], PPhase(ps, ts, src))]

(* Controlled exp(i*phi*P), phi = k*pi/4 + j*atan(4/3).                    *)
CtlExp(v, ctls, ps, ts, k, j) ==
  LET c == RCos2(k, j)
      s == RMulI(RSin2(k, j))
      pv == TLCEval(PauliApply(v, ps, ts))
      sc == RScale(j)
  IN  [n \in 1..Dim |-> IF \A q \in ctls : Bit(n - 1, q) = 1
                        THEN RAdd(RMul(v[n], c), RMul(pv[n], s))
                        ELSE RMul(v[n], sc)]

(* User-supplied unitaries: rows of ring elements and a scale; the first   *)
(* target is the most significant bit of the matrix index.                 *)
QftMat(m) == [r \in 1..Pow2[m] |-> [c \in 1..Pow2[m] |->
               ROmega(((r - 1) * (c - 1) * (8 \div Pow2[m])) % 8)]]
QftScale(m) == CASE m = 1 -> RSqrt2 [] m = 2 -> RInt(2) [] m = 3 -> RMul(RInt(2), RSqrt2)
ShiftMat(m) == [r \in 1..Pow2[m] |-> [c \in 1..Pow2[m] |->
               IF (c % Pow2[m]) + 1 = r THEN ROmega(3 * c) ELSE R0]]
DiagMat(m) == [r \in 1..Pow2[m] |-> [c \in 1..Pow2[m] |-> IF r = c THEN ROmega(r * r) ELSE R0]]
KronMat(A, B) == [r \in 1..(Len(A) * Len(B)) |-> [c \in 1..(Len(A) * Len(B)) |->
               RMul(A[(r - 1) \div Len(B) + 1][(c - 1) \div Len(B) + 1], B[((r - 1) % Len(B)) + 1][((c - 1) % Len(B)) + 1])]]
UMat(u) ==
  CASE u = "X1"   -> << <<R0, R1>>, <<R1, R0>> >>
    [] u = "H1"   -> << <<R1, R1>>, <<R1, RNeg(R1)>> >>
    [] u = "P1"   -> << <<RInt(3), RMul(ROmega(3), RInt(-4))>>, <<RMul(ROmega(5), RInt(-4)), RInt(-3)>> >>
    [] u = "T1"   -> << <<R0, ROmega(1)>>, <<ROmega(6), R0>> >>
    [] u = "Q1"   -> QftMat(1)
    [] u = "Q2"   -> QftMat(2)
    [] u = "Q3"   -> QftMat(3)
    [] u = "C2"   -> ShiftMat(2)
    [] u = "C3"   -> ShiftMat(3)
    [] u = "C4"   -> ShiftMat(4)
    [] u = "K4"   -> KronMat(QftMat(2), QftMat(2))
    [] u = "D2"   -> DiagMat(2)
    [] u = "CX"   -> << <<R1,R0,R0,R0>>, <<R0,R1,R0,R0>>, <<R0,R0,R0,R1>>, <<R0,R0,R1,R0>> >>
    [] u = "IS"   -> << <<R1,R0,R0,R0>>, <<R0,R0,RI,R0>>, <<R0,RI,R0,R0>>, <<R0,R0,R0,R1>> >>
UScale(u) == CASE u \in {"H1", "Q1"} -> RSqrt2
               [] u = "Q2" -> QftScale(2)
               [] u = "Q3" -> QftScale(3)
               [] u = "K4" -> RInt(4)
               [] u = "P1" -> RInt(5)
               [] OTHER -> R1
UNames == <<"X1", "H1", "P1", "T1", "Q1", "Q2", "Q3", "C2", "C3", "D2", "CX", "IS", "C4", "K4">>
UArity(u) == CASE u \in {"X1", "H1", "P1", "T1", "Q1"} -> 1
               [] u \in {"Q3", "C3"} -> 3
               [] u \in {"C4", "K4"} -> 4
               [] OTHER -> 2

Mats == [u \in Ran(UNames) |-> [m |-> UMat(u), s |-> UScale(u)]]

Dagger(U) == [r \in 1..Len(U) |-> [c \in 1..Len(U) |-> RConj(U[c][r])]]

RowOf(i, ts) == LET RECURSIVE S(_, _)
                    S(m, acc) == IF m > Len(ts) THEN acc ELSE S(m + 1, 2 * acc + Bit(i, ts[m]))
                IN  S(1, 0)
WithRow(i, ts, r) == LET RECURSIVE S(_, _)
                         S(m, acc) == IF m > Len(ts) THEN acc
                            ELSE S(m + 1, SetBit(acc, ts[m], (r \div Pow2[Len(ts) - m]) % 2))
                     IN  S(1, i)
CtlMat(v, ctls, ts, U, sc) ==
  [n \in 1..Dim |->
     LET i == n - 1 IN
     IF \A c \in ctls : Bit(i, c) = 1
     THEN LET row == U[RowOf(i, ts) + 1]
              RECURSIVE S(_)
              S(l) == IF l = 0 THEN R0
                      ELSE RAdd(S(l - 1), RMul(v[WithRow(i, ts, l - 1) + 1], row[l]))
          IN  S(Len(row))
     ELSE RMul(v[n], sc)]

SwapQ(v, a, b) ==
  [n \in 1..Dim |-> LET i == n - 1 IN v[SetBit(SetBit(i, a, Bit(i, b)), b, Bit(i, a)) + 1]]

-----------------------------------------------------------------------------
(* Measurement: projection of v on eigenvalue (-1)^r of the Pauli string   *)
(* is (v + (-1)^r P v) / 2.                                                *)
Project(v, ps, ts, r) ==
  LET pv == TLCEval(PauliApply(v, ps, ts))
  IN  [n \in 1..Dim |-> IF r = 0 THEN RAdd(v[n], pv[n]) ELSE RSub(v[n], pv[n])]
ProjectZ(v, t, r) == [n \in 1..Dim |-> IF Bit(n - 1, t) = r THEN v[n] ELSE R0]
ResetTo0(v, t, r) ==      \* v already projected on qubit t = r
  [n \in 1..Dim |-> IF Bit(n - 1, t) = 0 THEN v[SetBit(n - 1, t, r) + 1] ELSE R0]
Weight(v) == LET RECURSIVE S(_)
                 S(n) == IF n = 0 THEN <<0, 0>>
                         ELSE LET a == S(n - 1)  b == RNorm(v[n]) IN <<a[1] + b[1], a[2] + b[2]>>
             IN  S(Len(v))

-----------------------------------------------------------------------------
(* Operations are records.  op: name; c: controls; t: targets; k, j: angle *)
(* (k*pi/2 + 2*j*atan(4/3) for rotations, k*pi/4 + j*atan(4/3) for         *)
(* exponentials, k*pi/4 for the phase gate); p: Paulis; u: matrix name;    *)
(* r: outcome.                                                             *)
Op(name, c, t, k, j, p, u, r) ==
  [op |-> name, c |-> c, t |-> t, k |-> k, j |-> j, p |-> p, u |-> u, r |-> r]
G1(name, t) == Op(name, <<>>, <<t>>, 0, 0, <<>>, "", 0)
Rot(name, t, k, j) == Op(name, <<>>, <<t>>, k, j, <<>>, "", 0)
GC(name, c, t) == Op(name, c, <<t>>, 0, 0, <<>>, "", 0)
RotC(name, c, t, k, j) == Op(name, c, <<t>>, k, j, <<>>, "", 0)

Gates1 == {"x", "y", "z", "h", "s", "sa", "t", "ta", "sx", "ph", "rx", "ry", "rz"}
Sem(o, v) == TLCEval(
  CASE o.op \in Gates1 -> Ctl1(v, Ran(o.c), o.t[1], Mat(o.op, o.k, o.j))
    [] o.op = "exp" -> CtlExp(v, Ran(o.c), o.p, o.t, o.k, o.j)
       \* r: rotation about Pauli p by theta = exp(-i*theta/2*P)
    [] o.op = "r"   -> CtlExp(v, Ran(o.c), o.p, o.t, -o.k, -o.j)
    [] o.op = "rxx" -> CtlExp(v, {}, <<"X", "X">>, o.t, -o.k, -o.j)
    [] o.op = "ryy" -> CtlExp(v, {}, <<"Y", "Y">>, o.t, -o.k, -o.j)
    [] o.op = "rzz" -> CtlExp(v, {}, <<"Z", "Z">>, o.t, -o.k, -o.j)
    [] o.op = "ap"  -> CtlMat(v, Ran(o.c), o.t, UMat(o.u), UScale(o.u))
    [] o.op = "apa" -> CtlMat(v, Ran(o.c), o.t, Dagger(UMat(o.u)), RConj(UScale(o.u)))
    [] o.op = "sw"  -> SwapQ(v, o.t[1], o.t[2])
    [] o.op \in {"m", "mz"} -> ProjectZ(v, o.t[1], o.r)
    [] o.op \in {"rst", "mr", "rel"} -> ResetTo0(TLCEval(ProjectZ(v, o.t[1], o.r)), o.t[1], o.r)
    [] o.op = "rels" ->    \* one after the other, the outcomes are the bits of k
         LET RECURSIVE G(_, _)
             G(w, m) == IF m > Len(o.t) THEN w
                        ELSE LET b == (o.k \div Pow2[m - 1]) % 2
                             IN  G(ResetTo0(TLCEval(ProjectZ(w, o.t[m], b)), o.t[m], b), m + 1)
         IN  G(v, 1)
    [] o.op = "jm"  -> Project(v, o.p, o.t, o.r)
    [] OTHER -> v)         \* al, obs, pr, zq, dump: no effect on the state

(* The operation that undoes o.                                            *)
InvName(g) == CASE g = "s" -> "sa" [] g = "sa" -> "s" [] g = "t" -> "ta" [] g = "ta" -> "t"
                [] g = "ap" -> "apa" [] g = "apa" -> "ap" [] OTHER -> g
Inverse(o) == IF o.op = "sx" THEN Op("rx", o.c, o.t, -1, 0, <<>>, "", 0)   \* no controls: phase is global
              ELSE [o EXCEPT !.op = InvName(@), !.k = -@, !.j = -@]
=============================================================================
