------------------------------- MODULE Zomega -------------------------------
(***************************************************************************)
(* Exact arithmetic in the ring Z[w], w = exp(i*pi/4), w^4 = -1.           *)
(* The element a + b*w + c*w^2 + d*w^3 is the tuple <<a, b, c, d>>.        *)
(* sqrt(2) = w - w^3 and i = w^2, so every matrix of the Clifford+T set,   *)
(* every rotation by a multiple of pi/2 and (with a factor 1/5) every      *)
(* rotation by a multiple of the 3-4-5 angle has entries here up to one    *)
(* positive real scale, which a quantum state does not observe.            *)
(***************************************************************************)
LOCAL INSTANCE Integers
LOCAL INSTANCE Sequences

R0 == <<0, 0, 0, 0>>
R1 == <<1, 0, 0, 0>>
RI == <<0, 0, 1, 0>>
RSqrt2 == <<0, 1, 0, -1>>
RInt(n) == <<n, 0, 0, 0>>

RNeg(x) == <<-x[1], -x[2], -x[3], -x[4]>>
RAdd(x, y) == <<x[1]+y[1], x[2]+y[2], x[3]+y[3], x[4]+y[4]>>
RSub(x, y) == <<x[1]-y[1], x[2]-y[2], x[3]-y[3], x[4]-y[4]>>
RConj(x) == <<x[1], -x[4], -x[3], -x[2]>>
RMulW(x) == <<-x[4], x[1], x[2], x[3]>>
RMulI(x) == <<-x[3], -x[4], x[1], x[2]>>
RMul(x, y) ==
  IF y = R0 \/ x = R0 THEN R0 ELSE
  << x[1]*y[1] - x[2]*y[4] - x[3]*y[3] - x[4]*y[2],
     x[1]*y[2] + x[2]*y[1] - x[3]*y[4] - x[4]*y[3],
     x[1]*y[3] + x[2]*y[2] + x[3]*y[1] - x[4]*y[4],
     x[1]*y[4] + x[2]*y[3] + x[3]*y[2] + x[4]*y[1] >>
ROmegas == << <<1,0,0,0>>, <<0,1,0,0>>, <<0,0,1,0>>, <<0,0,0,1>>,
              <<-1,0,0,0>>, <<0,-1,0,0>>, <<0,0,-1,0>>, <<0,0,0,-1>> >>
ROmega(k) == ROmegas[(k % 8) + 1]

(* |x|^2 = n[1] + n[2]*sqrt(2) *)
RNorm(x) == << x[1]*x[1] + x[2]*x[2] + x[3]*x[3] + x[4]*x[4],
               x[1]*x[2] + x[2]*x[3] + x[3]*x[4] - x[4]*x[1] >>

REven(x) == x[1] % 2 = 0 /\ x[2] % 2 = 0 /\ x[3] % 2 = 0 /\ x[4] % 2 = 0
RHalf(x) == << x[1] \div 2, x[2] \div 2, x[3] \div 2, x[4] \div 2 >>
RDivSqrt2able(x) == (x[1] - x[3]) % 2 = 0 /\ (x[2] - x[4]) % 2 = 0
RDivSqrt2(x) == << (x[2] - x[4]) \div 2, (x[1] + x[3]) \div 2,
                   (x[2] + x[4]) \div 2, (x[3] - x[1]) \div 2 >>
RFive(x) == x[1] % 5 = 0 /\ x[2] % 5 = 0 /\ x[3] % 5 = 0 /\ x[4] % 5 = 0
RFifth(x) == << x[1] \div 5, x[2] \div 5, x[3] \div 5, x[4] \div 5 >>
RAbs(n) == IF n < 0 THEN -n ELSE n
RMax(x) == LET m == IF RAbs(x[1]) > RAbs(x[2]) THEN RAbs(x[1]) ELSE RAbs(x[2])
               n == IF RAbs(x[3]) > RAbs(x[4]) THEN RAbs(x[3]) ELSE RAbs(x[4])
           IN  IF m > n THEN m ELSE n

(* exp(i*phi) for the half angle phi = k*pi/4 + j*atan(4/3), times 5^|j|.  *)

RGen(j) == IF j = 0 THEN R1 ELSE IF j > 0 THEN <<3, 0, 4, 0>> ELSE <<3, 0, -4, 0>>
RECURSIVE RPow(_, _)
RPow(x, n) == IF n = 0 THEN R1 ELSE RMul(x, RPow(x, n - 1))
RCis(k, j) == RMul(ROmega(k), RPow(RGen(j), RAbs(j)))
RECURSIVE IPow(_, _)
IPow(b, n) == IF n = 0 THEN 1 ELSE b * IPow(b, n - 1)
(* 2*5^|j|*cos and 2*5^|j|*sin of that angle, as (real) ring elements.     *)
RCos2(k, j) == LET z == RCis(k, j) IN RAdd(z, RConj(z))
RSin2(k, j) == LET z == RCis(k, j) IN RNeg(RMulI(RSub(z, RConj(z))))
RScale(j) == RInt(2 * IPow(5, RAbs(j)))
=============================================================================
