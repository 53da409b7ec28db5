-------------------------------- MODULE Ints --------------------------------
(***************************************************************************)
(* Exact integers of any size.  A natural is a little-endian sequence of   *)
(* limbs in base 2^15 without leading zeros (TLC's numbers have 32 bits);  *)
(* an integer is a sign and a natural.                                     *)
(***************************************************************************)
LOCAL INSTANCE Integers
LOCAL INSTANCE Sequences
LOCAL INSTANCE SequencesExt
LOCAL INSTANCE Bitwise
LOCAL INSTANCE TLC

Base == 32768
Upto == [n \in 0..600 |-> [k \in 1..n |-> k]]
LOCAL Idx(n) == IF n <= 600 THEN Upto[n] ELSE [k \in 1..n |-> k]
LOCAL Rev(n) == [k \in 1..n |-> n + 1 - k]
LOCAL Pow2 == <<1, 2, 4, 8, 16, 32, 64, 128, 256, 512, 1024, 2048, 4096, 8192, 16384, 32768>>
LOCAL Limb(a, k) == IF k <= Len(a) THEN a[k] ELSE 0
LOCAL Mx(a, b) == IF a > b THEN a ELSE b

RECURSIVE Trim(_)
Trim(a) == IF a = <<>> \/ a[Len(a)] # 0 THEN a ELSE Trim(SubSeq(a, 1, Len(a) - 1))

(* ---- naturals ---- *)
AddN(a, b) ==
  Trim(FoldLeft(LAMBDA st, k : LET t == Limb(a, k) + Limb(b, k) + st.c
                               IN  [c |-> t \div Base, o |-> Append(st.o, t % Base)],
                [c |-> 0, o |-> <<>>], Idx(Mx(Len(a), Len(b)) + 1)).o)
SubN(a, b) ==        \* a >= b
  Trim(FoldLeft(LAMBDA st, k : LET t == a[k] - Limb(b, k) - st.c
                               IN  IF t < 0 THEN [c |-> 1, o |-> Append(st.o, t + Base)]
                                   ELSE [c |-> 0, o |-> Append(st.o, t)],
                [c |-> 0, o |-> <<>>], Idx(Len(a))).o)
CmpN(a, b) ==
  IF Len(a) # Len(b) THEN (IF Len(a) < Len(b) THEN -1 ELSE 1)
  ELSE FoldLeft(LAMBDA st, k : IF st # 0 THEN st ELSE IF a[k] < b[k] THEN -1 ELSE IF a[k] > b[k] THEN 1 ELSE 0,
                0, Rev(Len(a)))
MulSmall(a, d) ==    \* 0 <= d < Base
  Trim(FoldLeft(LAMBDA st, k : LET t == Limb(a, k) * d + st.c
                               IN  [c |-> t \div Base, o |-> Append(st.o, t % Base)],
                [c |-> 0, o |-> <<>>], Idx(Len(a) + 1)).o)
(* Columns are summed one row at a time, from the low limb up; each row    *)
(* finishes one limb of the product.                                       *)
MulN(a, b) ==
  IF a = <<>> \/ b = <<>> THEN <<>>
  ELSE LET r == FoldLeft(LAMBDA st, i :
                   LET row == FoldLeft(LAMBDA s, j : LET t == a[i] * Limb(b, j) + Limb(st.acc, j) + s.c
                                                     IN  [c |-> t \div Base, o |-> Append(s.o, t % Base)],
                                       [c |-> 0, o |-> <<>>], Idx(Len(b) + 1)).o
                   IN  [out |-> Append(st.out, row[1]), acc |-> Tail(row)],
                   [out |-> <<>>, acc |-> <<>>], Idx(Len(a)))
       IN  Trim(r.out \o r.acc)
DivSmall(a, d) ==    \* [q, r]
  LET z == FoldLeft(LAMBDA st, k : LET t == st.r * Base + a[k]
                                   IN  [r |-> t % d, q |-> Append(st.q, t \div d)],
                    [r |-> 0, q |-> <<>>], Rev(Len(a)))
  IN  [q |-> Trim(Reverse(z.q)), r |-> z.r]

(* Long division; each digit of the quotient is found by bisection.        *)
LOCAL Digit(r, b) ==
  FoldLeft(LAMBDA d, k : LET t == d + Pow2[16 - k] IN IF CmpN(MulSmall(b, t), r) <= 0 THEN t ELSE d, 0, Idx(15))
DivN(a, b) ==        \* [q, r], b > 0
  IF CmpN(a, b) < 0 THEN [q |-> <<>>, r |-> a]
  ELSE IF Len(b) = 1 THEN LET z == DivSmall(a, b[1]) IN [q |-> z.q, r |-> IF z.r = 0 THEN <<>> ELSE <<z.r>>]
  ELSE LET z == FoldLeft(LAMBDA st, k : LET r == Trim(<<a[k]>> \o st.r)
                                            d == Digit(r, b)
                                        IN  [r |-> SubN(r, MulSmall(b, d)), q |-> Append(st.q, d)],
                         [r |-> <<>>, q |-> <<>>], Rev(Len(a)))
       IN  [q |-> Trim(Reverse(z.q)), r |-> z.r]

LOCAL Zeros(n) == [k \in 1..n |-> 0]
ShlN(a, k) == IF a = <<>> THEN a ELSE Zeros(k \div 15) \o MulSmall(a, Pow2[(k % 15) + 1])
ShrN(a, k) == IF k \div 15 >= Len(a) THEN <<>>
              ELSE DivSmall(SubSeq(a, k \div 15 + 1, Len(a)), Pow2[(k % 15) + 1]).q
LOCAL LowBits(a, k) ==      \* is any of the k low bits set?
  \/ \E j \in 1..Mx(0, IF k \div 15 > Len(a) THEN Len(a) ELSE k \div 15) : a[j] # 0
  \/ k \div 15 < Len(a) /\ a[k \div 15 + 1] % Pow2[(k % 15) + 1] # 0
RECURSIVE PowN(_, _)
PowN(a, n) == IF n = 0 THEN <<1>>
              ELSE IF n % 2 = 1 THEN MulN(a, PowN(a, n - 1))
              ELSE LET h == PowN(a, n \div 2) IN MulN(h, h)
RECURSIVE BitsN(_)
LOCAL BitsSmall(d) == CHOOSE n \in 1..15 : Pow2[n] <= d /\ d < Pow2[n + 1]
BitsN(a) == IF a = <<>> THEN 0 ELSE 15 * (Len(a) - 1) + BitsSmall(a[Len(a)])
RECURSIVE Nat2N(_)
Nat2N(n) == IF n = 0 THEN <<>> ELSE <<n % Base>> \o Nat2N(n \div Base)

(* ---- decimal text ---- *)
LOCAL Pad4(n) == IF n < 10 THEN "000" \o ToString(n) ELSE IF n < 100 THEN "00" \o ToString(n)
                 ELSE IF n < 1000 THEN "0" \o ToString(n) ELSE ToString(n)
RECURSIVE DecN(_)
DecN(a) == LET z == DivSmall(a, 10000) IN
           IF z.q = <<>> THEN ToString(z.r) ELSE DecN(z.q) \o Pad4(z.r)
RECURSIVE ZerosText(_)
ZerosText(n) == IF n <= 0 THEN "" ELSE "0" \o ZerosText(n - 1)

(* ---- bytes, little-endian ---- *)
FromBytesN(b) ==
  LET B(k) == IF k <= Len(b) THEN b[k] ELSE 0
      L(j) == LET bit == 15 * (j - 1) IN
              ((B(bit \div 8 + 1) + 256 * B(bit \div 8 + 2) + 65536 * B(bit \div 8 + 3)) \div Pow2[(bit % 8) + 1]) % Base
  IN  Trim([j \in 1..((8 * Len(b) + 14) \div 15) |-> L(j)])
ToBytesN(a, n) ==    \* exactly n bytes
  [k \in 1..n |-> LET bit == 8 * (k - 1)  j == bit \div 15 + 1 IN
                  ((Limb(a, j) \div Pow2[(bit % 15) + 1])
                   + (Limb(a, j + 1) % Pow2[(bit % 15) + 1]) * Pow2[16 - (bit % 15)]) % 256]

(* ---- integers ---- *)
Z(s, m) == [s |-> IF m = <<>> THEN 0 ELSE s, m |-> m]
Zero == [s |-> 0, m |-> <<>>]
One == [s |-> 1, m |-> <<1>>]
ZInt(n) == IF n < 0 THEN Z(-1, Nat2N(-n)) ELSE Z(1, Nat2N(n))
Neg(a) == [a EXCEPT !.s = -@]
Abs(a) == [a EXCEPT !.s = IF @ = 0 THEN 0 ELSE 1]
Plus(a, b) ==
  IF a.s = 0 THEN b ELSE IF b.s = 0 THEN a
  ELSE IF a.s = b.s THEN Z(a.s, AddN(a.m, b.m))
  ELSE LET c == CmpN(a.m, b.m) IN
       IF c = 0 THEN Zero ELSE IF c > 0 THEN Z(a.s, SubN(a.m, b.m)) ELSE Z(b.s, SubN(b.m, a.m))
Minus(a, b) == Plus(a, Neg(b))
Times(a, b) == Z(a.s * b.s, MulN(a.m, b.m))
Cmp(a, b) == IF a.s # b.s THEN (IF a.s < b.s THEN -1 ELSE 1) ELSE a.s * CmpN(a.m, b.m)
Le(a, b) == Cmp(a, b) <= 0
Quot(a, b) == Z(a.s * b.s, DivN(a.m, b.m).q)       \* toward zero
Rem(a, b) == Z(a.s, DivN(a.m, b.m).r)
Power(a, n) == Z(IF n % 2 = 0 THEN 1 ELSE a.s, PowN(a.m, n))
Shl(a, k) == Z(a.s, ShlN(a.m, k))
Shr(a, k) == IF a.s >= 0 THEN Z(a.s, ShrN(a.m, k))   \* toward minus infinity
             ELSE Z(-1, AddN(ShrN(a.m, k), IF LowBits(a.m, k) THEN <<1>> ELSE <<>>))
Dec(a) == (IF a.s < 0 THEN "-" ELSE "") \o DecN(a.m)

(* Two's complement on n limbs, for the bitwise operations.                *)
LOCAL TwosN(a, n) == IF a.s >= 0 THEN [k \in 1..n |-> Limb(a.m, k)]
                     ELSE LET c == SubN(Append(Zeros(n), 1), a.m) IN [k \in 1..n |-> Limb(c, k)]
LOCAL FromTwos(l) == IF l[Len(l)] < 16384 THEN Z(1, Trim(l))
                     ELSE Z(-1, SubN(Append(Zeros(Len(l)), 1), Trim(l)))
Bits2(op(_, _), a, b) ==
  LET n == Mx(Len(a.m), Len(b.m)) + 1
      x == TwosN(a, n)  y == TwosN(b, n)
  IN  FromTwos([k \in 1..n |-> op(x[k], y[k])])
BitAnd(a, b) == LET o(x, y) == x & y IN Bits2(o, a, b)
BitOr(a, b) == LET o(x, y) == x | y IN Bits2(o, a, b)
BitXor(a, b) == LET o(x, y) == x ^^ y IN Bits2(o, a, b)
BitNot(a) == Minus(Neg(a), One)

(* Little-endian two's-complement bytes: any length in, the shortest out.  *)
FromBytes(b) ==
  IF b = <<>> THEN Zero
  ELSE IF b[Len(b)] < 128 THEN Z(1, FromBytesN(b))
  ELSE Z(-1, SubN(ShlN(<<1>>, 8 * Len(b)), FromBytesN(b)))
Length(a) == IF a.s >= 0 THEN BitsN(a.m) \div 8 + 1
             ELSE (BitsN(SubN(a.m, <<1>>))) \div 8 + 1
ToBytes(a) == LET n == Length(a) IN
              IF a.s >= 0 THEN ToBytesN(a.m, n)
              ELSE ToBytesN(SubN(ShlN(<<1>>, 8 * n), a.m), n)
=============================================================================
