------------------------------- MODULE LazySim -------------------------------
(***************************************************************************)
(* The design the simulator actually uses: gates are not applied at once   *)
(* but kept pending per qubit (an H flag, an Rx angle, a Ry angle, applied *)
(* in that order) behind a common queue of permutation/phase gates, and    *)
(* commuted, merged or rewritten as further gates arrive.                  *)
(*                                                                         *)
(* Model checked (TLC, breadth first) against the eager semantics of       *)
(* module Quantum: in every reachable state, flushing everything pending   *)
(* gives the same ray as applying every gate at once (Refines).  The same  *)
(* run emits every (pending configuration, operation) behaviour as a JSON  *)
(* line, to be replayed into the real simulator.                           *)
(***************************************************************************)
EXTENDS Quantum, TLC, Json, CSV

CONSTANTS
  Prep,       \* operations that prepare the (generic, entangled) start state
  Configs,    \* set of per-qubit operation lists that build pending configurations
  Pends,      \* set of operation lists that fill the common queue
  OpSet,      \* set of operations to try in every configuration
  Steps,      \* how many operations after the configuration is built
  Emitting,   \* write behaviours?
  Out

VARIABLES lz, ideal, hist, left
vars == <<lz, ideal, hist, left>>

None == <<>>                                  \* no pending rotation
RECURSIVE ApplyAll(_, _)
ApplyAll(v, ops) == IF ops = <<>> THEN v ELSE ApplyAll(Reduce(Sem(Head(ops), v)), Tail(ops))

(* lz: [v: vector, q: queued ops, h: set of ids, x, y: id -> None or <<k, j>>] *)
Fresh(v) == [v |-> v, q |-> <<>>, h |-> {}, x |-> [i \in Ids |-> None], y |-> [i \in Ids |-> None]]
FlushOps(s) == [s EXCEPT !.v = ApplyAll(s.v, s.q), !.q = <<>>]
Enq(s, o) == [s EXCEPT !.q = Append(@, o)]
HalfTurn(a) == a[2] = 0 /\ a[1] % 4 = 2        \* angle = pi mod 2*pi
FullTurn(a) == a[2] = 0 /\ a[1] % 4 = 0        \* angle = 0 mod 2*pi
(* Applying a rotation: a half turn is the Pauli itself and stays queued.  *)
ApplyRot(s, name, pauli, ctls, a, t) ==
  IF ctls = <<>> /\ HalfTurn(a) THEN Enq(s, G1(pauli, t))
  ELSE LET f == FlushOps(s) IN [f EXCEPT !.v = Reduce(Sem(RotC(name, ctls, t, a[1], a[2]), @))]
FlushH(s, t) == IF t \in s.h
                THEN LET f == FlushOps(s) IN [f EXCEPT !.v = Reduce(Sem(G1("h", t), @)), !.h = @ \ {t}]
                ELSE s
FlushRx(s, t) == IF s.x[t] = None THEN s
                 ELSE LET f == ApplyRot(s, "rx", "x", <<>>, s.x[t], t) IN [f EXCEPT !.x[t] = None]
FlushRy(s, t) == IF s.y[t] = None THEN s
                 ELSE LET f == ApplyRot(s, "ry", "y", <<>>, s.y[t], t) IN [f EXCEPT !.y[t] = None]
FlushOne(s, t, lvl) ==
  LET a == FlushH(s, t) IN
  IF lvl = "H" THEN a ELSE LET b == FlushRx(a, t) IN IF lvl = "HRx" THEN b ELSE FlushRy(b, t)
RECURSIVE FlushSeq(_, _, _)
FlushSeq(s, qs, lvl) == IF qs = <<>> THEN FlushOps(s)
                        ELSE FlushSeq(FlushOne(s, Head(qs), lvl), Tail(qs), lvl)
Flush(s, qs, lvl) == FlushSeq(s, qs, lvl)
HasPending(s, t) == t \in s.h \/ s.x[t] # None \/ s.y[t] # None
MaybeFlush(s, qs, lvl) == IF \E n \in 1..Len(qs) : HasPending(s, qs[n]) THEN Flush(s, qs, lvl) ELSE s
AllIds == [n \in 1..N |-> n - 1]
FlushAll(s) == Flush(s, AllIds, "HRxRy")

Neg(a) == IF a = None THEN None ELSE <<-a[1], -a[2]>>
AddAngle(a, b) == IF a = None THEN b
                  ELSE LET c == <<a[1] + b[1], a[2] + b[2]>> IN IF c = <<0, 0>> THEN None ELSE c

LX(s, t) == LET a == [s EXCEPT !.y[t] = Neg(@)]
            IN  Enq(a, G1(IF t \in s.h THEN "z" ELSE "x", t))
LY(s, t) == Enq([s EXCEPT !.x[t] = Neg(@)], G1("y", t))
LZ(s, t) == LET a == [s EXCEPT !.y[t] = Neg(@), !.x[t] = Neg(@)]
            IN  Enq(a, G1(IF t \in s.h THEN "x" ELSE "z", t))
LH(s, t) == LET a == [s EXCEPT !.y[t] = Neg(@)]
                b == IF a.x[t] # None THEN Flush(a, <<t>>, "HRx") ELSE a
            IN  [b EXCEPT !.h = IF t \in @ THEN @ \ {t} ELSE @ \cup {t}]
LRx(s, t, a) == LET b == IF t \in s.h \/ s.y[t] # None THEN Flush(s, <<t>>, "HRxRy") ELSE s
                IN  [b EXCEPT !.x[t] = AddAngle(@, a)]
LRy(s, t, a) == [s EXCEPT !.y[t] = AddAngle(@, a)]
LPhase(s, o) == Enq(MaybeFlush(MaybeFlush(s, o.c, "HRxRy"), o.t, "HRxRy"), o)

LMcx(s, o) ==
  LET t == o.t[1]  c == o.c
      a == IF s.y[t] # None THEN Flush(s, <<t>>, "HRxRy") ELSE s
      b == IF Len(c) > 1 THEN MaybeFlush(a, c, "HRxRy")
           ELSE IF a.y[c[1]] # None \/ a.x[c[1]] # None \/ (c[1] \in a.h /\ t \notin a.h)
           THEN Flush(a, c, "HRxRy") ELSE a
  IN  IF t \in b.h
      THEN IF Len(c) = 1 /\ c[1] \in b.h THEN Enq(b, GC("x", <<t>>, c[1]))
           ELSE Enq(b, GC("z", c, t))
      ELSE Enq(b, GC("x", c, t))
LMcy(s, o) ==
  LET t == o.t[1]  c == o.c
      a == MaybeFlush(s, c, "HRxRy")
      b == IF a.x[t] # None THEN Flush(a, <<t>>, "HRx") ELSE a
      d == IF t \in b.h THEN Enq(b, GC("z", Tail(c), Head(c))) ELSE b
  IN  Enq(d, GC("y", c, t))
LMcz(s, o) ==
  LET t == o.t[1]  c == o.c  all == Append(c, t)
      hs == { n \in 1..Len(all) : all[n] \in s.h }
      rot == \E n \in 1..Len(all) : s.x[all[n]] # None \/ s.y[all[n]] # None
  IN  IF Cardinality(hs) = 1 /\ ~rot
      THEN LET n == CHOOSE m \in hs : TRUE  q == all[n]
           IN  Enq(s, GC("x", [m \in 1..Len(c) |-> IF c[m] = q THEN t ELSE c[m]], q))
      ELSE Enq(Flush(Flush(s, c, "HRxRy"), <<t>>, "HRxRy"), o)
LMch(s, o) ==
  LET t == o.t[1]
      a == Flush(s, o.c, "HRxRy")
      b == IF a.y[t] # None \/ a.x[t] # None THEN Flush(a, <<t>>, "HRxRy") ELSE a
      d == FlushOps(b)
  IN  [d EXCEPT !.v = Reduce(Sem(o, @))]
LMcr(s, o, isY) ==
  LET t == o.t[1]
      a == Flush(s, o.c, "HRxRy")
      b == IF isY THEN IF a.x[t] # None THEN Flush(a, <<t>>, "HRx")
                       ELSE IF t \in a.h THEN Flush(a, <<t>>, "H") ELSE a
           ELSE IF a.y[t] # None THEN Flush(a, <<t>>, "HRxRy")
                ELSE IF t \in a.h THEN Flush(a, <<t>>, "H") ELSE a
      d == FlushOps(b)
  IN  [d EXCEPT !.v = Reduce(Sem(o, @))]
Direct(s, o, qs) == LET f == Flush(s, qs, "HRxRy") IN [f EXCEPT !.v = Reduce(Sem(o, @))]
LSwap(s, o) ==
  LET a == o.t[1]  b == o.t[2]
      f == FlushOps(s)
      sw(i) == IF i = a THEN b ELSE IF i = b THEN a ELSE i
  IN  [v |-> SwapQ(f.v, a, b), q |-> f.q, h |-> { sw(i) : i \in f.h },
       x |-> [i \in Ids |-> f.x[sw(i)]], y |-> [i \in Ids |-> f.y[sw(i)]]]

LStep(s, o) ==
  LET t == o.t[1] IN
  CASE o.c = <<>> /\ o.op = "x" -> LX(s, t)
    [] o.c = <<>> /\ o.op = "y" -> LY(s, t)
    [] o.c = <<>> /\ o.op = "z" -> LZ(s, t)
    [] o.c = <<>> /\ o.op = "h" -> LH(s, t)
    [] o.c = <<>> /\ o.op = "rx" -> LRx(s, t, <<o.k, o.j>>)
    [] o.c = <<>> /\ o.op = "ry" -> LRy(s, t, <<o.k, o.j>>)
    [] o.op = "sx" -> LH(LPhase(LH(s, t), G1("s", t)), t)
    [] o.op \in {"s", "sa", "t", "ta", "rz"} -> LPhase(s, o)
    [] o.op = "ph" -> Direct(Flush(s, o.c, "HRxRy"), o, o.t)
    [] o.op = "x" -> LMcx(s, o)
    [] o.op = "y" -> LMcy(s, o)
    [] o.op = "z" -> LMcz(s, o)
    [] o.op = "h" -> LMch(s, o)
    [] o.op = "rx" -> LMcr(s, o, FALSE)
    [] o.op = "ry" -> LMcr(s, o, TRUE)
    [] o.op = "sw" -> LSwap(s, o)
    [] o.op \in {"exp", "r", "rxx", "ryy", "rzz", "ap"} -> Direct(s, o, o.c \o o.t)
    [] o.op \in {"m", "mr", "rst", "rel", "jm"} -> Direct(s, o, o.t)
    [] OTHER -> s

RECURSIVE LSteps(_, _)
LSteps(s, ops) == IF ops = <<>> THEN s ELSE LSteps(LStep(s, Head(ops)), Tail(ops))

-----------------------------------------------------------------------------
Retarget(ops, q) == [n \in 1..Len(ops) |-> [ops[n] EXCEPT !.t = <<q>>]]
Build(cfg) == LET RECURSIVE B(_)
                  B(q) == IF q = N THEN <<>> ELSE Retarget(cfg[q], q) \o B(q + 1)
              IN  B(0)
Base == ApplyAll(Zero, Prep)

Feasible(o, v) == ~(o.op \in {"m", "mr", "rst", "rel", "jm"}) \/ ~IsZeroVec(Sem(o, v))

Compact(o) == << o.op, o.c, o.t, o.k, o.j, o.p, o.u, o.r >>
ASSUME Emitting => CSVWrite("%1$s", <<ToJson([n |-> N, start |-> N, mats |-> Mats, prep |-> Prep])>>, Out)

Init == \E cfg \in [Ids -> Configs], pend \in Pends :
          /\ hist = Build(cfg) \o pend
          /\ lz = LSteps(Fresh(Base), hist)
          /\ ideal = ApplyAll(Base, hist)
          /\ left = Steps
Next == /\ left > 0
        /\ \E o \in OpSet :
             /\ Feasible(o, ideal)
             /\ hist' = Append(hist, o)
             /\ lz' = LStep(lz, o)            \* an invalid operation ("bad") never has an effect
             /\ ideal' = Reduce(Sem(o, ideal))
        /\ left' = left - 1
Spec == Init /\ [][Next]_vars

Refines == SameRay(FlushAll(lz).v, ideal)
(* H and Rx are never pending together on one qubit.                       *)
Exclusive == \A i \in Ids : ~(i \in lz.h /\ lz.x[i] # None)
Emit == (Emitting /\ left = 0) =>
          CSVWrite("%1$s", <<ToJson([ops |-> [n \in 1..Len(hist) |-> Compact(hist[n])], v |-> ideal])>>, Out)
=============================================================================
