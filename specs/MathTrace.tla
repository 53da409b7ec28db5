----------------------------- MODULE MathTrace -----------------------------
(***************************************************************************)
(* Calls of the mathematical functions and random draws recorded from the  *)
(* real runtime.  A double is s * m * 2^e (k = "fin"), an infinity ("inf") *)
(* or not a number ("nan").  Every result must be within Tol units of its  *)
(* last place of the exact value; what is special is exact.                *)
(***************************************************************************)
EXTENDS Fixed, Json, IOUtils
CONSTANTS TraceFile, Tol
Log == ndJsonDeserialize(TraceFile)
VARIABLES i, ok

M(x) == FromBytesN(x.m)
Nan(x) == x.k = "nan"
Inf(x) == x.k = "inf"
Fin(x) == x.k = "fin"
IsZero(x) == Fin(x) /\ M(x) = <<>>
Same(x, y) == x.k = y.k /\ (Nan(x) \/ x.s = y.s) /\ (Fin(x) => M(x) = M(y) /\ (M(x) = <<>> \/ x.e = y.e))

(* s * m * 2^e at F, exact when F >= -e *)
Real(x, F) == IF x.e + F >= 0 THEN Z(x.s, ShlN(M(x), x.e + F)) ELSE Shr(Z(x.s, M(x)), -(x.e + F))
T(r, F) == Z(1, ShlN(<<Tol>>, r.e + F))        \* Tol units of r's last place, F >= -r.e
Prec(r, least) == Most(least, 45 - r.e)
Slack(F) == Z(1, <<1024>>)
Near(a, b, t) == Le(Abs(Minus(a, b)), Plus(t, Z(1, <<1024>>)))
(* a * 2^p <= b * 2^q for naturals *)
LeScaled(a, p, b, q) == IF p >= q THEN CmpN(ShlN(a, p - q), b) <= 0 ELSE CmpN(a, ShlN(b, q - p)) <= 0
LtOne(x) == LeScaled(M(x), x.e, <<1>>, 0)      \* |x| <= 1
PiAt(F, n, d) == Z(1, DivS(MulSmall(At(PI2, F), 2 * n), d))      \* n/d * pi
IsAngle(r, s, n, d) ==      \* r is s * n/d * pi
  Fin(r) /\ LET F == Prec(r, 100) IN r.s = s /\ Near(Abs(Real(r, F)), PiAt(F, n, d), T(r, F))

Sin(x, r) == LET F == Prec(r, 100) IN Near(Real(r, F), SinCos(Real(x, F), F).s, T(r, F))
Cos(x, r) == LET F == Prec(r, 100) IN Near(Real(r, F), SinCos(Real(x, F), F).c, T(r, F))
Tan(x, r) ==
  LET F == Prec(r, 220)
      z == SinCos(Real(x, F), F)
      c == Abs(z.c)
      rc == Shr(Times(Real(r, F), z.c), F)
  IN  Near(rc, z.s, Plus(Shr(Times(T(r, F), c), F), Z(1, <<0, 1>>)))

Enormous(x) == LeScaled(<<1>>, 10, M(x), x.e)      \* |x| >= 1024: e^|x| is no double
Sinh(x, r) ==
  IF Enormous(x) THEN Inf(r) /\ r.s = x.s
  ELSE IF Inf(r) THEN r.s = x.s /\ LET z == SinhCosh(Abs(Real(x, 100)).m, 100) IN
                              CmpN(ShlN(z.s, 50), ShlN(SubN(ShlN(<<1>>, 50), <<1>>), 1024 + 100)) >= 0
  ELSE LET F == Prec(r, 100) IN r.s = x.s /\ Near(Abs(Real(r, F)), Z(1, SinhCosh(Abs(Real(x, F)).m, F).s), T(r, F))
Cosh(x, r) ==
  IF Enormous(x) THEN Inf(r) /\ r.s = 1
  ELSE IF Inf(r) THEN r.s = 1 /\ LET z == SinhCosh(Abs(Real(x, 100)).m, 100) IN
                            CmpN(ShlN(z.c, 50), ShlN(SubN(ShlN(<<1>>, 50), <<1>>), 1024 + 100)) >= 0
  ELSE LET F == Prec(r, 100) IN r.s = 1 /\ Near(Real(r, F), Z(1, SinhCosh(Abs(Real(x, F)).m, F).c), T(r, F))
Tanh(x, r) ==
  /\ Fin(r) /\ r.s = x.s
  /\ IF x.e > -50 /\ LeScaled(<<1>>, 6, M(x), x.e) THEN LET F == Prec(r, 100) IN Near(Abs(Real(r, F)), Z(1, ShlN(<<1>>, F)), T(r, F))
     ELSE LET F == Prec(r, 100)
              z == SinhCosh(Abs(Real(x, F)).m, F)
          IN  Near(Z(1, ShrN(MulN(Abs(Real(r, F)).m, z.c), F)), Z(1, z.s),
                   Plus(Z(1, ShrN(MulN(T(r, F).m, z.c), F)), Z(1, ShlN(<<1>>, Most(0, BitsN(z.c) - F)))))

(* The inverse functions: the argument lies between the values at the ends *)
(* of the tolerated interval.                                              *)
Between(x, r, lo, hi, f(_), F) == \* f rising on [lo, hi]; the ends clipped to it
  LET a == Minus(Real(r, F), T(r, F))
      b == Plus(Real(r, F), T(r, F))
      X == Real(x, F)
  IN  /\ Le(lo, b) /\ Le(a, hi)
      /\ Le(a, lo) \/ Le(f(a), Plus(X, Slack(F)))
      /\ Le(hi, b) \/ Le(X, Plus(f(b), Slack(F)))
ArcSin(x, r) ==
  LET F == Prec(r, 220)  h == Z(1, At(PI2, F))  f(a) == SinCos(a, F).s IN
  IF ~LtOne(x) THEN Nan(r) ELSE Fin(r) /\ Between(x, r, Neg(h), h, f, F)
ArcCos(x, r) ==
  LET F == Prec(r, 220)  h == Z(1, At(PI2, F))  f(a) == Neg(SinCos(a, F).c) IN
  IF ~LtOne(x) THEN Nan(r) ELSE Fin(r) /\ Between([x EXCEPT !.s = -@], r, Zero, Plus(h, h), f, F)
(* the direction (X, Y), integers of any common scale, lies at r *)
Direction(Y, X, r) ==
  LET F == Prec(r, 120)
      a == SinCos(Minus(Real(r, F), T(r, F)), F)
      b == SinCos(Plus(Real(r, F), T(r, F)), F)
      c == SinCos(Real(r, F), F)
      d == Shl(Plus(Abs(X), Abs(Y)), 10)
      p == PiAt(F, 1, 1)
  IN  /\ Le(Abs(Real(r, F)), Plus(p, T(r, F)))
      /\ Le(Times(X, a.s), Plus(Times(Y, a.c), d))
      /\ Le(Times(Y, b.c), Plus(Times(X, b.s), d))
      /\ Plus(Times(X, c.c), Times(Y, c.s)).s > 0
Exact(x, e) == Z(x.s, ShlN(M(x), x.e - e))
ArcTan(x, r) ==
  Fin(r) /\ r.s = x.s /\ LET e == IF x.e < 0 THEN x.e ELSE 0 IN Direction(Exact(x, e), Z(1, ShlN(<<1>>, -e)), r)
ArcTan2(y, x, r) ==
  CASE Nan(y) \/ Nan(x) -> Nan(r)
    [] IsZero(y) -> IF x.s > 0 THEN Same(r, y) ELSE IsAngle(r, y.s, 1, 1)
    [] Inf(y) -> IF Inf(x) THEN (IF x.s > 0 THEN IsAngle(r, y.s, 1, 4) ELSE IsAngle(r, y.s, 3, 4)) ELSE IsAngle(r, y.s, 1, 2)
    [] Inf(x) -> IF x.s > 0 THEN IsZero(r) /\ r.s = y.s ELSE IsAngle(r, y.s, 1, 1)
    [] IsZero(x) -> IsAngle(r, y.s, 1, 2)
    [] OTHER -> Fin(r) /\ r.s = y.s /\ LET e == IF x.e < y.e THEN x.e ELSE y.e IN Direction(Exact(y, e), Exact(x, e), r)

Sqrt(x, r) ==      \* (m - Tol)^2 2^(2e) <= x <= (m + Tol)^2 2^(2e)
  LET lo == SubN(M(r), <<Tol>>)  hi == AddN(M(r), <<Tol>>) IN
  IF x.s < 0 THEN Nan(r)
  ELSE Fin(r) /\ r.s = 1 /\ LeScaled(MulN(lo, lo), 2 * r.e, M(x), x.e) /\ LeScaled(M(x), x.e, MulN(hi, hi), 2 * r.e)

(* e^t <= x (up) or e^t >= x, t real at F, up to the slack *)
ExpLe(t, x, F) == LET z == Exp(t.m, F)  e == SubN(z.e, <<1024>>) IN
                  IF t.s >= 0 THEN LeScaled(e, z.k - F, M(x), x.e)
                  ELSE LeScaled(<<1>>, F - z.k, MulN(M(x), AddN(z.e, <<1024>>)), x.e)
ExpGe(t, x, F) == LET z == Exp(t.m, F)  e == AddN(z.e, <<1024>>) IN
                  IF t.s >= 0 THEN LeScaled(M(x), x.e, e, z.k - F)
                  ELSE LeScaled(MulN(M(x), SubN(z.e, <<1024>>)), x.e, <<1>>, F - z.k)
Ln(x, r) ==
  LET F == Prec(r, 100) IN
  IF x.s < 0 THEN Nan(r)
  ELSE Fin(r) /\ ExpLe(Minus(Real(r, F), T(r, F)), x, F) /\ ExpGe(Plus(Real(r, F), T(r, F)), x, F)

(* x - n*y, n the integer nearest to x/y, ties to even *)
Remainder(x, y, r) ==
  LET e == IF x.e < y.e THEN x.e ELSE y.e
      X == ShlN(M(x), x.e - e)
      Y == ShlN(M(y), y.e - e)
      z == DivN(X, Y)
      c == CmpN(ShlN(z.r, 1), Y)
      odd == z.q # <<>> /\ z.q[1] % 2 = 1
      R == Times(Z(x.s, <<1>>), IF c > 0 \/ (c = 0 /\ odd) THEN Minus(Z(1, z.r), Z(1, Y)) ELSE Z(1, z.r))
      lo == IF r.e < e THEN r.e ELSE e
  IN  Fin(r) /\ Shl(R, e - lo) = Exact(r, lo)

Function(f, x, y, r) ==
  IF f = "arctan2" THEN ArcTan2(x, y, r)
  ELSE IF f = "rem" THEN
     IF Nan(x) \/ Nan(y) \/ Inf(x) \/ IsZero(y) THEN Nan(r)
     ELSE IF Inf(y) THEN Same(r, x) \/ (IsZero(x) /\ IsZero(r)) ELSE Remainder(x, y, r)
  ELSE IF Nan(x) THEN Nan(r)
  ELSE IF Inf(x) THEN
     CASE f \in {"sin", "cos", "tan", "arcsin", "arccos"} -> Nan(r)
       [] f = "sinh" -> Same(r, x)
       [] f = "cosh" -> Inf(r) /\ r.s = 1
       [] f = "tanh" -> Fin(r) /\ r.s = x.s /\ M(r) = ShlN(<<1>>, -r.e)
       [] f = "arctan" -> IsAngle(r, x.s, 1, 2)
       [] f \in {"sqrt", "log"} -> IF x.s > 0 THEN Same(r, x) ELSE Nan(r)
  ELSE IF M(x) = <<>> /\ f \in {"sin", "tan", "sinh", "tanh", "arcsin", "arctan", "sqrt"} THEN Same(r, x)
  ELSE IF M(x) = <<>> /\ f = "log" THEN Inf(r) /\ r.s = -1
  ELSE IF f \in {"sin", "cos", "tan"} /\ ~Fin(r) THEN FALSE
  ELSE CASE f = "sin" -> Sin(x, r) [] f = "cos" -> Cos(x, r) [] f = "tan" -> Tan(x, r)
         [] f = "sinh" -> Sinh(x, r) [] f = "cosh" -> Cosh(x, r) [] f = "tanh" -> Tanh(x, r)
         [] f = "arcsin" -> ArcSin(x, r) [] f = "arccos" -> ArcCos(x, r) [] f = "arctan" -> ArcTan(x, r)
         [] f = "sqrt" -> Sqrt(x, r) [] f = "log" -> Ln(x, r)

LeDbl(x, y) == LET e == IF x.e < y.e THEN x.e ELSE y.e IN Le(Exact(x, e), Exact(y, e))
Int64(b) == FromBytes(b)
Good(z) ==
  CASE z.f = "isnan" -> z.b = Nan(z.x)
    [] z.f = "isinf" -> z.b = (Inf(z.x) /\ z.x.s = 1)
    [] z.f = "isneginf" -> z.b = (Inf(z.x) /\ z.x.s = -1)
    [] z.f = "nan" -> Nan(z.x)
    [] z.f = "inf" -> Inf(z.x) /\ z.x.s = 1
    (* draws: the bounds and all that was drawn *)
    [] z.f = "ints" -> IF Cmp(Int64(z.lo), Int64(z.hi)) > 0 THEN z.failed
                       ELSE /\ ~z.failed
                            /\ \A k \in 1..Len(z.got) : Le(Int64(z.lo), Int64(z.got[k])) /\ Le(Int64(z.got[k]), Int64(z.hi))
                            /\ z.all => \A d \in 0..z.width : \E k \in 1..Len(z.got) : Int64(z.got[k]) = Plus(Int64(z.lo), ZInt(d))
                            /\ z.all => Plus(Int64(z.lo), ZInt(z.width)) = Int64(z.hi)
                            (* 128 draws: each quarter is hit but with probability 2^-53 *)
                            /\ LET Four(x) == Plus(Plus(Int64(x), Int64(x)), Plus(Int64(x), Int64(x)))
                                   Cut(a, b) == Plus(Plus(Plus(Int64(a), Int64(a)), Int64(a)), Int64(b))
                                   Low == Cut(z.lo, z.hi)
                                   High == Cut(z.hi, z.lo)
                                   Mid == Plus(Plus(Int64(z.lo), Int64(z.hi)), Plus(Int64(z.lo), Int64(z.hi)))
                                   Drawn(x, y) == \E k \in 1..Len(z.got) : Le(x, Four(z.got[k])) /\ Le(Four(z.got[k]), y)
                               IN  /\ \E k \in 1..Len(z.got) : Le(Four(z.got[k]), Low)
                                   /\ \E k \in 1..Len(z.got) : Le(High, Four(z.got[k]))
                                   /\ z.all \/ (Drawn(Low, Mid) /\ Drawn(Mid, High))
    [] z.f = "doubles" -> IF ~LeDbl(z.lo, z.hi) THEN z.failed
                          ELSE /\ ~z.failed
                               /\ \A k \in 1..Len(z.got) : Fin(z.got[k]) /\ LeDbl(z.lo, z.got[k]) /\ LeDbl(z.got[k], z.hi)
                               /\ LET c == <<z.lo, z.cuts[1], z.cuts[2], z.cuts[3], z.hi>>
                                  IN  /\ \A n \in 1..4 : LeDbl(c[n], c[n + 1])
                                      /\ z.wide => \A n \in 1..4 : \E k \in 1..Len(z.got) :
                                                    LeDbl(c[n], z.got[k]) /\ LeDbl(z.got[k], c[n + 1])
    [] OTHER -> Function(z.f, z.x, z.y, z.r)
Init == i = 1 /\ ok = TRUE
Next == i <= Len(Log) /\ i' = i + 1 /\ ok' = Good(Log[i])
Spec == Init /\ [][Next]_<<i, ok>>
Explained == ok
=============================================================================
