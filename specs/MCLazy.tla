------------------------------- MODULE MCLazy -------------------------------
(* Exhaustive instances of LazySim: every pending configuration of every   *)
(* qubit (up to the chosen angles) crossed with every operation.           *)
EXTENDS LazySim
PrepN2 == << G1("h", 0), G1("t", 0), G1("h", 0), GC("x", <<0>>, 1), G1("t", 1), Rot("ry", 1, 1, 0),
             Rot("rx", 0, 0, 1), GC("s", <<1>>, 0), G1("h", 1), G1("ta", 1), Rot("ry", 0, 0, 1) >>
PrepN3 == << G1("h", 0), G1("t", 0), G1("h", 0), GC("x", <<0>>, 1), G1("t", 1), Rot("ry", 1, 0, 1),
             GC("h", <<1>>, 2), GC("s", <<1>>, 0), G1("h", 1), G1("ta", 1), GC("x", <<1>>, 2), Rot("ry", 2, 1, 0),
             GC("t", <<2>>, 0) >>
H0 == <<G1("h", 0)>>
RX(k, j) == <<Rot("rx", 0, k, j)>>
RY(k, j) == <<Rot("ry", 0, k, j)>>
Cross(A, B) == { a \o b : a \in A, b \in B }
ConfigsFull == Cross({ <<>>, H0, RX(1, 0), RX(2, 0), RX(0, 1) }, { <<>>, RY(1, 0), RY(2, 0), RY(0, -1) })
ConfigsMid  == Cross({ <<>>, H0, RX(1, 0), RX(2, 0) }, { <<>>, RY(1, 0), RY(-2, 0) })
ConfigsMin  == Cross({ <<>>, H0, RX(1, 0) }, { <<>>, RY(1, 0) })
Pends0 == { <<>> }
Pends2 == { <<>>, << GC("x", <<0>>, 1) >> }
Pends3 == { <<>>, << GC("x", <<0>>, 1) >>, << G1("s", 0), GC("y", <<1>>, 0) >> }

AnglesQ == { <<1, 0>>, <<2, 0>>, <<-1, 0>> }
AnglesF == AnglesQ \cup { <<4, 0>>, <<0, 1>>, <<-2, 0>> }
Lists(n, S) == { f \in [1..n -> S] : \A a, b \in 1..n : a # b => f[a] # f[b] }
Ctls(n, q) == Lists(n, Ids \ {q})
OpsSingle(A) ==
  { G1(g, q) : g \in {"x","y","z","h","s","sa","t","ta","sx"}, q \in Ids }
  \cup { Rot(g, q, a[1], a[2]) : g \in {"rx","ry","rz"}, q \in Ids, a \in A }
OpsCtl(n, A) == UNION {
  { GC(g, c, q) : g \in {"x","y","z","h","s","sa","t","ta"}, c \in Ctls(n, q) }
  \cup { RotC(g, c, q, a[1], a[2]) : g \in {"rx","ry","rz"}, c \in Ctls(n, q), a \in A }
  \cup { RotC("ph", c, q, a, 0) : c \in Ctls(n, q), a \in {1, 3} } : q \in Ids }
PauliNames == {"I", "X", "Y", "Z"}
Exp(c, t, k, j, p) == Op("exp", c, t, k, j, p, "", 0)
OpsExp2 == UNION { { Exp(<<>>, t, 1, 0, p), Exp(<<>>, t, 0, 1, p) } : t \in Lists(2, Ids), p \in [1..2 -> PauliNames] }
           \cup UNION { { Exp(c, <<q>>, 1, 0, <<p>>), Exp(c, <<q>>, 2, 0, <<p>>), Op("r", c, <<q>>, 1, 0, <<p>>, "", 0) }
                        : q \in Ids, c \in Ctls(1, 0) \cup Ctls(1, 1) \cup {<<>>}, p \in PauliNames }
           \cup { Op(g, <<>>, t, a[1], a[2], <<>>, "", 0) : g \in {"rxx","ryy","rzz"}, t \in Lists(2, Ids), a \in AnglesQ }
OpsExpOk(S) == { o \in S : \A x \in Ran(o.c) : x \notin Ran(o.t) }
OpsExpN2 == OpsExpOk(OpsExp2)
OpsApplyN2 == { Op(a, c, t, 0, 0, <<>>, u, 0) :
                  a \in {"ap"}, u \in {"Q2","C2","D2","IS"}, c \in {<<>>}, t \in Lists(2, Ids) }
              \cup UNION { { Op("ap", c, <<q>>, 0, 0, <<>>, u, 0) : u \in {"H1","P1","T1"}, c \in {<<>>} \cup Ctls(1, q) } : q \in Ids }
OpsMeas == { Op(g, <<>>, <<q>>, 0, 0, <<>>, "", r) : g \in {"m", "mr", "rst", "rel"}, q \in Ids, r \in {0, 1} }
           \cup { Op("jm", <<>>, t, 0, 0, p, "", r) : t \in {<<0, 1>>, <<1, 0>>}, p \in [1..2 -> PauliNames], r \in {0, 1} }
OpsSwap == { Op("sw", <<>>, t, 0, 0, <<>>, "", 0) : t \in Lists(2, Ids) \cup {<<0, 0>>} }
OpsN3Two == OpsCtl(2, {<<1, 0>>, <<2, 0>>})

(* Operations that must fail: with a repeated qubit, or on qubit 2, which  *)
(* is not allocated in these instances.                                    *)
Bad(g, c, t, p) == Op("bad", c, t, 1, 0, p, g, 0)
BadQ == {0, 1, 2}
BadC1 == { <<a, b>> : a \in BadQ, b \in BadQ } \cap { x \in BadQ \X BadQ : x[1] = x[2] \/ 2 \in Ran(x) }
BadC2 == { x \in BadQ \X BadQ \X BadQ : Cardinality(Ran(x)) < 3 \/ 2 \in Ran(x) }
OpsBad ==
  { Bad(g, <<x[1]>>, <<x[2]>>, <<"Y">>) : g \in {"x","y","z","h","s","sa","t","ta","rx","ry","rz","ph","exp","r","ap"}, x \in BadC1 }
  \cup { Bad(g, <<x[1], x[2]>>, <<x[3]>>, <<"X">>) : g \in {"x","y","z","h","s","ta","rx","ry","rz","exp"},
         x \in { y \in BadC2 : y[1] <= y[2] } }
  \cup { Bad(g, <<>>, <<2>>, <<"Z">>) : g \in {"x","y","z","h","s","sa","t","ta","rx","ry","rz","exp","r","ap",
                                            "m","mr","rst","zq","fc","rel","jm","pr"} }
  \cup { Bad(g, <<>>, <<x[1], x[2]>>, <<"X", "Z">>) : g \in {"rxx","ryy","rzz","exp","jm","pr","ap"}, x \in BadC1 }
  \cup { Bad("sw", <<>>, <<x[1], x[2]>>, <<>>) : x \in { y \in BadC1 : 2 \in Ran(y) } }

S1q == OpsSingle(AnglesQ)
S1f == OpsSingle(AnglesF)
Cq == OpsCtl(1, {<<1, 0>>, <<2, 0>>})
Cf == OpsCtl(1, AnglesF)
C2q == { o \in OpsN3Two : o.c[1] < o.c[2] \/ o.op \in {"y", "z"} }
SMall == OpsSwap
Mixed == OpsSingle({<<1, 0>>}) \cup OpsCtl(1, {<<2, 0>>}) \cup OpsSwap
=============================================================================
