-------------------------------- MODULE QSim --------------------------------
(***************************************************************************)
(* The simulator as a client sees it: a set of allocated qubits, an exact  *)
(* quantum state, and operations that take effect immediately.  Run with   *)
(* TLC -simulate it generates random behaviours (every choice is made with *)
(* RandomElement, so each step has one successor) and writes each finished *)
(* behaviour, with the state after every step, as one JSON line, to be     *)
(* replayed into the real simulator.                                       *)
(***************************************************************************)
EXTENDS Quantum, TLC, Json, CSV

CONSTANTS
  Fams,        \* sequence of operation families to draw from (repeat for weight)
  Depth,       \* length of a behaviour
  MaxCtl,      \* most controls on one operation
  Mode,        \* "free"; "undo": the second half undoes the first; "bad": with one invalid operation;
               \* "rare": some start with a measurement that has an unlikely outcome
  Start,       \* how many qubits are allocated initially
  Out          \* file the behaviours are appended to

VARIABLES al, vec, hist
vars == <<al, vec, hist>>

Limit == IF N <= 3 THEN 3000 ELSE IF N = 4 THEN 2000 ELSE 1000

Sorted(S) == SelectSeq([n \in 1..N |-> n - 1], LAMBDA q : q \in S)
(* The state over the allocated qubits only, numbered by increasing id.    *)
Expand(i, s) == LET RECURSIVE E(_)
                    E(m) == IF m = 0 THEN 0 ELSE E(m - 1) + Bit(i, m - 1) * Pow2[s[m]]
                IN  E(Len(s))
Canon(v, S) == LET s == Sorted(S) IN [n \in 1..Pow2[Len(s)] |-> v[Expand(n - 1, s) + 1]]

Perms == { f \in [1..N -> Ids] : \A a, b \in 1..N : a # b => f[a] # f[b] }
Pick(seq) == seq[RandomElement(1..Len(seq))]

G1Names == <<"x","y","z","h","h","s","sa","t","t","ta","rx","rx","ry","ry","rz","sx">>
GCNames == <<"x","x","y","z","h","s","sa","t","ta","rx","ry","rz","ph">>
IsRot(g) == g \in {"rx", "ry", "rz", "ph"}
AngleKs == <<1, 1, 2, 2, -1, -2, 3, 4, -3, 5, 6>>
AngleJs == <<0, 0, 0, 1, -1>>
PauliSet == <<"I", "X", "Y", "Z">>
PauliXYZ == <<"X", "Y", "Z">>

(* How many of n operands: now and then none.                              *)
SomeOf(n) == IF RandomElement(1..15) = 1 THEN 0 ELSE RandomElement(1..n)
(* Pauli strings: any, or mostly of one kind.                              *)
Paulis(n) == LET c == Pick(<<"X", "Y", "Y", "Z", "-", "-", "-">>)
             IN  TLCEval([m \in 1..n |-> IF c = "-" \/ RandomElement(1..4) = 1 THEN Pick(PauliSet) ELSE c])

Record(o, w, S, v) ==
  [op |-> o.op, c |-> o.c, t |-> o.t, k |-> o.k, j |-> o.j, p |-> o.p, u |-> o.u,
   r |-> o.r, w |-> w, ids |-> Sorted(S), v |-> Canon(v, S)]

Done(o, w, S, v) ==
  /\ al' = S
  /\ vec' = v
  /\ hist' = Append(hist, Record(o, w, S, v))
Noop == Done(Op("obs", <<>>, <<>>, 0, 0, <<>>, "", 0), <<>>, al, vec)

Unitary(o) ==
  \E nv \in {Reduce(Sem(o, vec))} :
    IF MaxCoef(nv) > Limit THEN Noop ELSE Done(o, <<>>, al, nv)

(* Weights of outcome 1 and outcome 0 as <<a1, b1, a0, b0>>, a + b*sqrt(2).*)
Weights(ps, ts) ==
  LET w1 == Weight(Project(vec, ps, ts, 1))
      w0 == Weight(Project(vec, ps, ts, 0))
  IN  <<w1[1], w1[2], w0[1], w0[2]>>
Zs(n) == [m \in 1..n |-> "Z"]

Prefix(s, n) == SubSeq(s, 1, n)
Mn(a, b) == IF a < b THEN a ELSE b
Mx(a, b) == IF a > b THEN a ELSE b

(* Measurement-like operations with a random feasible outcome.             *)
Measured(name, ts, ps, S) ==
  \E first \in {RandomElement({0, 1})} :
    LET o1 == Op(name, <<>>, ts, 0, 0, ps, "", first)
        o2 == Op(name, <<>>, ts, 0, 0, ps, "", 1 - first)
        n1 == Sem(o1, vec)
        o == IF IsZeroVec(n1) THEN o2 ELSE o1
    IN \E nv \in {Reduce(Sem(o, vec))} :
         IF MaxCoef(nv) > Limit THEN Noop
         ELSE Done(o, Weights(IF ps = <<>> THEN Zs(Len(ts)) ELSE ps, ts), S, nv)

(* Releases qubits one after the other, with an outcome for each (k has    *)
(* them as bits); the weights are those of this list of outcomes and of    *)
(* all others.                                                             *)
Several(ts) ==
  LET bit(k, m) == (k \div Pow2[m - 1]) % 2
      RECURSIVE kept(_, _, _)
      kept(w, k, m) == IF m > Len(ts) THEN w ELSE kept(TLCEval(ProjectZ(w, ts[m], bit(k, m))), k, m + 1)
      all == 0..(Pow2[Len(ts)] - 1)
  IN \E k \in {RandomElement({x \in all : ~IsZeroVec(kept(vec, x, 1))})} :
       LET o == Op("rels", <<>>, ts, k, 0, <<>>, "", 1)
           w1 == Weight(kept(vec, k, 1))
           w == Weight(vec)
       IN \E nv \in {Reduce(Sem(o, vec))} :
            IF MaxCoef(nv) > Limit THEN Noop
            ELSE Done(o, <<w1[1], w1[2], w[1] - w1[1], w[2] - w1[2]>>, al \ Ran(ts), nv)

Step(f) ==
  \E perm \in {RandomElement(Perms)} :
  \E A \in {SelectSeq(perm, LAMBDA q : q \in al)} :
  \E n \in {Len(A)} :
  \E k \in {Pick(AngleKs)} :
  \E j \in {IF MaxCoef(vec) > 200 THEN 0 ELSE Pick(AngleJs)} :
  CASE f = "g1" /\ n >= 1 ->
         \E g \in {Pick(G1Names)} :
           Unitary(IF IsRot(g) THEN Rot(g, A[1], k, j) ELSE G1(g, A[1]))
    [] f = "gc" /\ n >= 2 ->
         \E g \in {Pick(GCNames)} : \E nc \in {RandomElement(1..Mn(MaxCtl, n - 1))} :
           Unitary(IF IsRot(g) THEN RotC(g, SubSeq(A, 2, nc + 1), A[1], k, IF g = "ph" THEN 0 ELSE j)
                   ELSE GC(g, SubSeq(A, 2, nc + 1), A[1]))
    [] f = "exp" /\ n >= 1 ->
         \E nt \in {SomeOf(n)} : \E nc \in {RandomElement(0..Mn(MaxCtl, n - nt))} :
         \E ps \in {Paulis(nt)} :
           Unitary(Op("exp", SubSeq(A, nt + 1, nt + nc), Prefix(A, nt), k, j, ps, "", 0))
    [] f = "r" /\ n >= 1 ->
         \E nc \in {RandomElement(0..Mn(MaxCtl, n - 1))} :
         \E ps \in {<<Pick(PauliSet)>>} :
           Unitary(Op("r", SubSeq(A, 2, nc + 1), <<A[1]>>, k, j, ps, "", 0))
    [] f = "rr" /\ n >= 2 ->
         \E g \in {Pick(<<"rxx", "ryy", "rzz">>)} :
           Unitary(Op(g, <<>>, <<A[1], A[2]>>, k, j, <<>>, "", 0))
    [] f = "ap" /\ n >= 1 ->
         \E u \in {Pick(UNames)} :
           IF UArity(u) > n THEN Noop
           ELSE \E nc \in {RandomElement(0..Mn(MaxCtl, n - UArity(u)))} :
             Unitary(Op("ap", SubSeq(A, UArity(u) + 1, UArity(u) + nc), Prefix(A, UArity(u)),
                        0, 0, <<>>, u, 0))
    [] f = "sw" /\ n >= 1 ->
         \E m \in {IF n >= 2 /\ RandomElement(1..8) # 1 THEN 2 ELSE 1} :
           Unitary(Op("sw", <<>>, <<A[1], A[m]>>, 0, 0, <<>>, "", 0))
    [] f = "al" /\ n < N ->
         \E q \in {CHOOSE x \in Ids \ al : \A y \in Ids \ al : x <= y} :
           Done(Op("al", <<>>, <<q>>, 0, 0, <<>>, "", 0), <<>>, al \cup {q}, vec)
    \* several at once, or none
    [] f = "als" ->
         \E free \in {Sorted(Ids \ al)} : \E m \in {RandomElement(0..(N - n))} :
           Done(Op("als", <<>>, Prefix(free, m), 0, 0, <<>>, "", 0), <<>>, al \cup Ran(Prefix(free, m)), vec)
    [] n = 0 /\ f # "obs" ->
         Done(Op("al", <<>>, <<0>>, 0, 0, <<>>, "", 0), <<>>, {0}, vec)
    [] f = "rel" /\ n >= 1 -> Measured("rel", <<A[1]>>, <<>>, al \ {A[1]})
    [] f = "rels" -> \E m \in {RandomElement(0..n)} : Several(Prefix(A, m))
    [] f = "m"   /\ n >= 1 -> Measured("m", <<A[1]>>, <<>>, al)
    [] f = "mr"  /\ n >= 1 -> Measured("mr", <<A[1]>>, <<>>, al)
    [] f = "rst" /\ n >= 1 -> Measured("rst", <<A[1]>>, <<>>, al)
    [] f = "jm"  /\ n >= 1 ->
         \E nt \in {SomeOf(n)} : \E ps \in {Paulis(nt)} :
           Measured("jm", Prefix(A, nt), ps, al)
    [] f = "jz"  /\ n >= 1 ->
         \E nt \in {SomeOf(n)} : Measured("jm", Prefix(A, nt), Zs(nt), al)
    [] f = "pr"  /\ n >= 1 ->
         \E nt \in {SomeOf(n)} : \E ps \in {Paulis(nt)} :
           Done(Op("pr", <<>>, Prefix(A, nt), 0, 0, ps, "", 0), Weights(ps, Prefix(A, nt)), al, vec)
    [] f = "pz"  /\ n >= 1 ->
         \E nt \in {SomeOf(n)} :
           Done(Op("pr", <<>>, Prefix(A, nt), 0, 0, Zs(nt), "", 0), Weights(Zs(nt), Prefix(A, nt)), al, vec)
    [] f = "as"  /\ n >= 1 ->
         (* Assert that the parity (u: of which outcome) has its probability *)
         (* plus k/16, with tolerance (2j + 1)/32: passes iff within it.     *)
         \E nt \in {SomeOf(n)} : \E ps \in {Paulis(nt)} :
         \E dk \in {Pick(<<0, 0, 0, 0, 1, -1, 2, -2, 3>>)} : \E tj \in {Pick(<<0, 0, 1, 2, 3>>)} :
           Done(Op("as", <<>>, Prefix(A, nt), dk, tj, ps, Pick(<<"one", "zero">>),
                   IF 2 * dk <= 2 * tj + 1 /\ -2 * dk <= 2 * tj + 1 THEN 1 ELSE 0),
                Weights(ps, Prefix(A, nt)), al, vec)
    [] f = "ae"  /\ n >= 1 ->
         (* The same on a basis state, where the probability is 0 or 1 and   *)
         (* the tolerance can be met exactly: it is (-j - 1)/16.             *)
         \E nt \in {SomeOf(n)} : \E ps \in {[m \in 1..nt |-> Pick(<<"I", "Z", "Z">>)]} :
         \E dk \in {Pick(<<0, 0, 1, -1, 2, -2, 3, -3, 16, -16>>)} : \E e \in {Pick(<<0, 0, 0, 1, -1>>)} :
         \E tj \in {Mx(0, (IF dk < 0 THEN -dk ELSE dk) + e)} :
           IF Cardinality({x \in 1..Dim : vec[x] # R0}) # 1 THEN Noop
           ELSE Done(Op("as", <<>>, Prefix(A, nt), dk, -tj - 1, ps, Pick(<<"one", "zero">>),
                        IF dk <= tj /\ -dk <= tj THEN 1 ELSE 0),
                     Weights(ps, Prefix(A, nt)), al, vec)
    [] f = "gx"  /\ n >= 1 -> Unitary(G1(Pick(<<"x", "x", "x", "y", "z", "s">>), A[1]))
    [] f = "gcx" /\ n >= 2 ->
         \E nc \in {RandomElement(1..Mn(MaxCtl, n - 1))} : Unitary(GC(Pick(<<"x", "x", "y", "z">>), SubSeq(A, 2, nc + 1), A[1]))
    [] f = "zq"  /\ n >= 1 ->
           Done(Op("zq", <<>>, <<A[1]>>, 0, 0, <<>>, "", 0), Weights(<<"Z">>, <<A[1]>>), al, vec)
    [] f = "fc"  /\ n >= 1 ->
         \E r \in {RandomElement({0, 1})} :
         \E o \in {Op("fc", <<>>, <<A[1]>>, 0, 0, <<>>, "", r)} :
         \E nv \in {ProjectZ(vec, A[1], r)} :
           Done(o, Weights(<<"Z">>, <<A[1]>>), al, IF IsZeroVec(nv) THEN vec ELSE Reduce(nv))
    [] f = "obs" -> Noop
    [] f = "dump" -> Done(Op("dump", <<>>, <<>>, 0, 0, <<>>, "", 0), <<>>, al, vec)
    [] OTHER -> Noop

(* The first line of the output: what the behaviours are about.            *)
ASSUME CSVWrite("%1$s", <<ToJson([n |-> N, start |-> Start, mats |-> Mats])>>, Out)

Init == al = 0..(Start - 1) /\ vec = Zero /\ hist = <<>>
Again ==    \* the same measurement once more, with the only outcome it can have
  LET e == hist[Len(hist)] IN
  IF e.op = "m" THEN Measured("m", e.t, <<>>, al) ELSE Measured("jm", e.t, e.p, al)
(* A behaviour mostly starts by bringing its qubits out of |0>, where many *)
(* operations would do nothing.                                            *)
Warm == \E k \in {RandomElement(1..3)} :
  Unitary(Pick(<< G1("h", Len(hist)), G1("h", Len(hist)), Rot("ry", Len(hist), k, 0), Rot("rx", Len(hist), k, 0),
                  G1("x", Len(hist)) >>))
(* Outcomes of probability 1/50 to 1/2500, for one qubit, a parity or a    *)
(* pair; either outcome is then followed.                                  *)
Small(q) == Pick(<<Rot("ry", q, 1, -1), Rot("rx", q, 1, -1), Rot("ry", q, -1, 1), Rot("rx", q, -3, -1)>>)
IsSmall(o) == o.op \in {"ry", "rx"} /\ RAbs(o.j) = 1
Rare ==
  CASE Len(hist) = 0 -> Unitary(Small(0))
    [] Len(hist) = 1 -> Unitary(Pick(<<Small(1), G1("h", 1), RotC("ry", <<0>>, 1, 1, -1), GC("x", <<0>>, 1)>>))
    [] Len(hist) = 2 -> IF N = 2 THEN Unitary(Pick(<<GC("z", <<1>>, 0), G1("z", 1), GC("h", <<1>>, 0)>>))
                        ELSE Unitary(Pick(<<GC("x", <<0, 1>>, 2), GC("x", <<1, 0>>, 2), GC("y", <<0, 1>>, 2), GC("h", <<0>>, 2)>>))
    [] OTHER -> \E q \in {RandomElement(Ids)} : \E g \in {Pick(<<"m", "m", "jm", "jm", "mr", "rst">>)} :
                  IF g = "jm" THEN \E nt \in {RandomElement(1..N)} : \E first \in {RandomElement(0..(N - nt))} :
                                     Measured("jm", [m \in 1..nt |-> first + m - 1], Zs(nt), al)
                  ELSE Measured(g, <<q>>, <<>>, al)
Undo ==
  LET e == hist[Depth - Len(hist)] IN
  IF e.op = "obs" THEN Noop
  ELSE LET o == Inverse(Op(e.op, e.c, e.t, e.k, e.j, e.p, e.u, e.r))
       IN  Done(o, <<>>, al, Reduce(Sem(o, vec)))
(* One operation that must not be possible: on a qubit that is not         *)
(* allocated, or naming a qubit twice, or with a matrix that does not fit. *)
(* It never changes the state: the program fails no later than the next    *)
(* observation, whatever it does until then.                               *)
BadNames == <<"x", "x", "y", "z", "h", "s", "sa", "t", "ta", "rx", "ry", "rz", "ph", "exp", "r", "rxx", "ryy", "rzz",
              "ap", "sw", "m", "mr", "rst", "jm", "pr", "zq", "fc", "rel", "apsize", "apsq">>
NoCtl == {"rxx", "ryy", "rzz", "sw", "m", "mr", "rst", "jm", "pr", "zq", "fc", "rel"}
Targets(g) == CASE g \in {"rxx", "ryy", "rzz", "sw"} -> {2}
                [] g \in {"exp", "jm", "pr", "ap"} -> {1, 2, 3}
                [] OTHER -> {1}
BadStep ==
  \E g \in {Pick(BadNames)} : \E perm \in {RandomElement(Perms)} :
  \E nt \in {Mn(RandomElement(Targets(g)), N)} :
  \E nc \in {IF g \in NoCtl THEN 0 ELSE RandomElement(0..Mn(MaxCtl, N - nt))} :
  \E A \in {SelectSeq(perm, LAMBDA q : q \in al)} :
  \E dup \in {nt + nc >= 2 /\ g # "sw" /\ Len(A) >= nt + nc - 1 /\ RandomElement({TRUE, FALSE})} :
  \E L \in {IF dup
            THEN LET B == Append(SubSeq(A, 1, nt + nc - 1), 0)
                     at == RandomElement(1..(nt + nc))   \* where the repeated one goes
                     C == [n \in 1..(nt + nc) |-> IF n < at THEN B[n] ELSE IF n = at THEN -1 ELSE B[n - 1]]
                     other == RandomElement({n \in 1..(nt + nc) : n # at})
                 IN  [n \in 1..(nt + nc) |-> IF n = at THEN C[other] ELSE C[n]]
            ELSE SubSeq(perm, 1, nt + nc)} :
  \E k \in {Pick(AngleKs)} : \E ps \in {[m \in 1..nt |-> Pick(PauliXYZ)]} :
    IF g \notin {"apsize", "apsq"} /\ ~dup /\ Ran(L) \subseteq al THEN Noop
    ELSE Done(Op("bad", SubSeq(L, nt + 1, nt + nc), SubSeq(L, 1, nt), k, 0, ps, g, 0), <<>>, al, vec)
HasBad == \E n \in 1..Len(hist) : hist[n].op = "bad"

Next ==
  /\ Len(hist) < Depth
  /\ IF Mode = "bad" /\ Len(hist) >= 3 /\ ~HasBad /\ RandomElement(1..4) = 1 THEN BadStep
     ELSE IF Mode = "undo" /\ Len(hist) >= Depth \div 2 THEN Undo
     ELSE IF Mode = "rare" /\ Start = N /\ (IF hist = <<>> THEN RandomElement(1..4) = 1 ELSE IsSmall(hist[1]) /\ Len(hist) < 4)
     THEN Rare
     ELSE IF Mode \in {"free", "rare"} /\ Len(hist) > 0 /\ hist[Len(hist)].op \in {"m", "jm"} /\ RandomElement(1..3) = 1
     THEN Again
     ELSE IF Len(hist) < Start /\ Len(hist) \in al /\ "ae" \notin Ran(Fams) /\ RandomElement(1..4) # 1 THEN Warm
     ELSE \E f \in {Pick(Fams)} : Step(f)
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
(* Properties of the specification itself, checked along every behaviour.  *)
NeverNull == ~IsZeroVec(vec)
FreeIsZero == \A q \in Ids \ al : IsZeroVec(ProjectZ(vec, q, 1))
Collapsed == Len(hist) > 0 =>
  LET e == hist[Len(hist)] IN
  /\ e.op = "m" => IsZeroVec(ProjectZ(vec, e.t[1], 1 - e.r))
  /\ e.op \in {"mr", "rst"} => IsZeroVec(ProjectZ(vec, e.t[1], 1))
  /\ e.op = "jm" => IsZeroVec(Project(vec, e.p, e.t, 1 - e.r))
(* A measurement repeated at once has the outcome it had.                  *)
Repeats == Len(hist) > 1 =>
  LET e == hist[Len(hist)]  d == hist[Len(hist) - 1]
  IN  (e.op \in {"m", "jm"} /\ d.op = e.op /\ d.t = e.t /\ d.p = e.p) => e.r = d.r /\ SameRay(e.v, d.v)
Undone == (Mode = "undo" /\ Len(hist) = Depth /\ Depth % 2 = 0) => SameRay(Zero, vec)
Emit == Len(hist) = Depth => CSVWrite("%1$s", <<ToJson(hist)>>, Out)
=============================================================================
