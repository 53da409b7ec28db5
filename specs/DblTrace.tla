------------------------------ MODULE DblTrace ------------------------------
(***************************************************************************)
(* Texts of doubles recorded from the real runtime.  A double is           *)
(* s * m * 2^e, m a 53-bit natural given as bytes; the text is given as    *)
(* the bytes of its characters.  The text must be in the documented form   *)
(* and be read back, by correct rounding, as the same double; then         *)
(* distinct doubles have distinct texts.                                   *)
(***************************************************************************)
EXTENDS Text, Json, IOUtils
CONSTANT TraceFile
Log == ndJsonDeserialize(TraceFile)
VARIABLES i, ok
IsDigit(c) == c >= 48 /\ c <= 57
Num(ds) == FoldLeft(LAMBDA a, c : AddN(MulSmall(a, 10), IF c = 48 THEN <<>> ELSE <<c - 48>>), <<>>, ds)
Ten(f) == PowN(<<10>>, f)
AbsDiff(a, b) == IF CmpN(a, b) >= 0 THEN SubN(a, b) ELSE SubN(b, a)
(* is the nearest double of digits/10^f the one with mantissa m and exponent e? *)
Nearest(dg, f, m, e) ==
  LET lhs == IF e < 0 THEN ShlN(dg, -e) ELSE dg
      rhs == IF e < 0 THEN MulN(m, Ten(f)) ELSE MulN(ShlN(m, e), Ten(f))
      gap == IF e < 0 THEN Ten(f) ELSE ShlN(Ten(f), e)
      low == CmpN(lhs, rhs) < 0
      (* just below a power of two doubles are twice as dense *)
      edge == BitsN(m) = 53 /\ m = ShlN(<<1>>, 52) /\ low /\ e > -1074
      c == CmpN(ShlN(AbsDiff(lhs, rhs), IF edge THEN 2 ELSE 1), gap)
  IN  c < 0 \/ (c = 0 /\ m[1] % 2 = 0)
Whole(m, e) == e >= 0 \/ ShlN(ShrN(m, -e), -e) = m
Good(x) ==
  LET t == x.t
      u == IF x.s < 0 THEN Tail(t) ELSE t
      dots == { k \in 1..Len(u) : u[k] = 46 }
      dot == CHOOSE k \in dots : TRUE
      int == SubSeq(u, 1, dot - 1)
      frac == SubSeq(u, dot + 1, Len(u))
      m == FromBytesN(x.m)
  IN  /\ x.s < 0 => t[1] = 45
      /\ \E k \in dots : dots = {k}
      /\ \A k \in 1..Len(u) : k = dot \/ IsDigit(u[k])
      /\ int # <<>> /\ frac # <<>>
      /\ int[1] = 48 => Len(int) = 1
      /\ IF Whole(m, x.e) THEN frac = <<48>> ELSE frac[Len(frac)] # 48
      /\ Nearest(Num(int \o frac), Len(frac), m, x.e)
Init == i = 1 /\ ok = TRUE
Next == i <= Len(Log) /\ i' = i + 1 /\ ok' = Good(Log[i])
Spec == Init /\ [][Next]_<<i, ok>>
Explained == ok
=============================================================================
