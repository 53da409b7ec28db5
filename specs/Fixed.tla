------------------------------- MODULE Fixed -------------------------------
(***************************************************************************)
(* Real numbers as exact integers scaled by 2^F: pi, ln 2, sine, cosine,   *)
(* the exponential and the hyperbolic functions, each to within 2^10 units *)
(* of the last place.                                                      *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, Ints, TLC
P == 1500                      \* bits of the constants
Most(a, b) == IF a > b THEN a ELSE b
Steps(n) == [k \in 1..n |-> k]
DivS(a, d) == DivSmall(a, d).q

(* sum of sg^k / ((2k+1) n^(2k+1)): the inverse (hyperbolic) tangent of 1/n *)
InvTan(n, hyper) ==
  LET s == FoldLeft(LAMBDA st, k :
             LET t == DivS(st.t, 2 * k - 1)
                 nx == DivS(DivS(st.t, n), n)
             IN  IF st.t = <<>> THEN st
                 ELSE IF hyper \/ k % 2 = 1 THEN [t |-> nx, p |-> AddN(st.p, t), n |-> st.n]
                 ELSE [t |-> nx, p |-> st.p, n |-> AddN(st.n, t)],
             [t |-> DivS(ShlN(<<1>>, P), n), p |-> <<>>, n |-> <<>>], Steps(400))
  IN  SubN(s.p, s.n)
PI2 == TLCEval(SubN(MulSmall(InvTan(5, FALSE), 8), MulSmall(InvTan(239, FALSE), 2)))      \* pi/2
LN2 == TLCEval(SubN(AddN(MulSmall(InvTan(26, TRUE), 18), MulSmall(InvTan(8749, TRUE), 8)), MulSmall(InvTan(4801, TRUE), 2)))
At(c, F) == ShrN(c, P - F)

(* sum over j of t^(i+2j) / (i+2j)!, alternating if asked; t a natural *)
Series(t, i, F, alternating) ==
  LET t2 == ShrN(MulN(t, t), F)
      s == FoldLeft(LAMBDA st, j :
             IF st.t = <<>> THEN st
             ELSE LET nx == DivS(DivS(ShrN(MulN(st.t, t2), F), i + 2 * j - 1), i + 2 * j)
                  IN  IF alternating /\ j % 2 = 0 THEN [t |-> nx, p |-> st.p, n |-> AddN(st.n, st.t)]
                      ELSE [t |-> nx, p |-> AddN(st.p, st.t), n |-> st.n],
             [t |-> IF i = 0 THEN ShlN(<<1>>, F) ELSE t, p |-> <<>>, n |-> <<>>], Steps(20 + F \div 3))
  IN  Minus(Z(1, s.p), Z(1, s.n))

(* a = q * c + r, c a constant: [q, r], r at F *)
Reduce(a, c, F) ==
  LET L == Most(0, BitsN(a) - F) + 2
      z == DivN(ShlN(a, L), At(c, F + L))
  IN  [q |-> z.q, r |-> ShrN(z.r, L)]

SinCos(X, F) ==
  LET z == Reduce(X.m, PI2, F)
      n == IF z.q = <<>> THEN 0 ELSE z.q[1] % 4
      s == TLCEval(Series(z.r, 1, F, TRUE))
      c == TLCEval(Series(z.r, 0, F, TRUE))
      S == CASE n = 0 -> s [] n = 1 -> c [] n = 2 -> Neg(s) [] n = 3 -> Neg(c)
      C == CASE n = 0 -> c [] n = 1 -> Neg(s) [] n = 2 -> Neg(c) [] n = 3 -> s
  IN  TLCEval([s |-> IF X.s < 0 THEN Neg(S) ELSE S, c |-> C])

(* e^t for a natural t: a number e at F times 2^k *)
Exp(t, F) ==
  LET z == Reduce(t, LN2, F)
      s == TLCEval(FoldLeft(LAMBDA st, j : IF st.t = <<>> THEN st
                                           ELSE [a |-> AddN(st.a, st.t), t |-> DivS(ShrN(MulN(st.t, z.r), F), j)],
                            [a |-> <<>>, t |-> ShlN(<<1>>, F)], Steps(20 + F)))
  IN  [k |-> IF z.q = <<>> THEN 0 ELSE z.q[1], e |-> s.a]

(* the hyperbolic sine and cosine of a natural t, at F *)
SinhCosh(t, F) ==
  IF BitsN(t) <= F THEN [s |-> Series(t, 1, F, FALSE).m, c |-> Series(t, 0, F, FALSE).m]
  ELSE LET x == Exp(t, F)
           up == ShlN(x.e, x.k)
           dn == ShrN(DivN(ShlN(<<1>>, 2 * F), x.e).q, x.k)
       IN  [s |-> ShrN(SubN(up, dn), 1), c |-> ShrN(AddN(up, dn), 1)]
=============================================================================
