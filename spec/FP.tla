-------------------------------- MODULE FP --------------------------------
(***************************************************************************)
(* Decimal floating point inside TLC's 32-bit integers.                    *)
(*                                                                         *)
(* A number is a pair <<m, e>> standing for m * 10^e, normalised so that   *)
(* 10^8 <= |m| < 10^9 (nine significant digits), zero is <<0, 0>>.         *)
(* Special values carry the exponent 9999: <<0,9999>> is NaN, <<1,9999>>   *)
(* +infinity, <<-1,9999>> -infinity.  The harness encodes every float it   *)
(* observes on the implementation in this form; the specification computes *)
(* the value the property demands and compares with an explicit tolerance. *)
(* All operations are accurate to about 1e-8 relative.                     *)
(***************************************************************************)
EXTENDS Integers, Sequences

FPZero == <<0, 0>>
FPNaN == <<0, 9999>>
FPPosInf == <<1, 9999>>
FPNegInf == <<-1, 9999>>

FPFinite(a) == a[2] # 9999
FPIsNaN(a) == a = FPNaN

FPAbsI(x) == IF x < 0 THEN -x ELSE x

\* integer quotient rounded to nearest, towards zero symmetric (d > 0)
FPRoundDiv(x, d) == IF x >= 0 THEN (x + d \div 2) \div d
                              ELSE -((-x + d \div 2) \div d)

Pow10 == <<1, 10, 100, 1000, 10000, 100000, 1000000, 10000000, 100000000, 1000000000>>
P10(n) == Pow10[n + 1]

RECURSIVE FPUp(_, _)
FPUp(m, e) == IF FPAbsI(m) >= 100000000 THEN <<m, e>> ELSE FPUp(m * 10, e - 1)

FPNorm(m, e) ==
  IF m = 0 THEN FPZero
  ELSE IF FPAbsI(m) >= 1000000000
       THEN LET q == FPRoundDiv(m, 10) IN
            IF FPAbsI(q) >= 1000000000 THEN <<FPRoundDiv(q, 10), e + 2>> ELSE <<q, e + 1>>
       ELSE FPUp(m, e)

FPInt(n) == FPNorm(n, 0)
FPNeg(a) == <<-a[1], a[2]>>
FPAbs(a) == <<FPAbsI(a[1]), a[2]>>
FPScale10(a, k) == IF a[1] = 0 THEN a ELSE <<a[1], a[2] + k>>

FPAdd(a, b) ==
  IF ~FPFinite(a) \/ ~FPFinite(b)
  THEN IF FPFinite(a) THEN b ELSE IF FPFinite(b) THEN a
       ELSE IF a = b THEN a ELSE FPNaN
  ELSE IF a[1] = 0 THEN b ELSE IF b[1] = 0 THEN a
  ELSE LET x == IF a[2] >= b[2] THEN a ELSE b
           y == IF a[2] >= b[2] THEN b ELSE a
           d == x[2] - y[2]
       IN IF d > 9 THEN x
          ELSE FPNorm(x[1] + FPRoundDiv(y[1], P10(d)), x[2])

FPSub(a, b) == FPAdd(a, FPNeg(b))

FPMul(a, b) ==
  IF ~FPFinite(a) \/ ~FPFinite(b)
  THEN LET s == (IF a[1] < 0 THEN -1 ELSE IF a[1] > 0 THEN 1 ELSE 0)
              * (IF b[1] < 0 THEN -1 ELSE IF b[1] > 0 THEN 1 ELSE 0)
       IN <<s, 9999>>
  ELSE IF a[1] = 0 \/ b[1] = 0 THEN FPZero
  ELSE LET s == IF (a[1] < 0) = (b[1] < 0) THEN 1 ELSE -1
           x == FPAbsI(a[1])
           y == FPAbsI(b[1])
           x1 == x \div 100000   x0 == x % 100000
           y1 == y \div 100000   y0 == y % 100000
           c == x1 * y0 + x0 * y1
           lo == FPRoundDiv((x0 \div 10) * (y0 \div 10), 10000)    \* x0*y0 / 10^6, so c + lo*10 = (x*y - x1*y1*10^10) / 10^5
           \* x*y = x1*y1*10^10 + c*10^5 + x0*y0 ; keep units of 10^9
           small == x1 * y1 < 9000000
           m == IF small THEN x1 * y1 * 100 + FPRoundDiv(c + lo * 10, 1000)
                         ELSE x1 * y1 * 10 + FPRoundDiv(c + lo * 10, 10000)
       IN FPNorm(s * m, a[2] + b[2] + (IF small THEN 8 ELSE 9))

\* long division, nine digits, divisor rounded to eight digits, then one
\* correction step to recover the precision lost by the rounding
RECURSIVE FPLong(_, _, _, _)
FPLong(r, d, q, n) ==
  IF n = 0 THEN q ELSE LET r10 == r * 10 IN FPLong(r10 % d, d, q * 10 + r10 \div d, n - 1)

FPDivRaw(a, b) ==
  LET s == IF (a[1] < 0) = (b[1] < 0) THEN 1 ELSE -1
      x == FPRoundDiv(FPAbsI(a[1]), 10)
      y == FPRoundDiv(FPAbsI(b[1]), 10)
      q0 == x \div y
      q == FPLong(x % y, y, q0, 8)
  IN FPNorm(s * q, a[2] - b[2] - 8)

FPDiv(a, b) ==
  IF ~FPFinite(a) \/ ~FPFinite(b)
  THEN IF FPFinite(a) /\ ~FPIsNaN(b) THEN FPZero ELSE FPNaN
  ELSE IF b[1] = 0 THEN (IF a[1] = 0 THEN FPNaN ELSE IF a[1] > 0 THEN FPPosInf ELSE FPNegInf)
  ELSE IF a[1] = 0 THEN FPZero
  ELSE LET q == FPDivRaw(a, b)
           r == FPSub(a, FPMul(b, q))
       IN IF r[1] = 0 THEN q ELSE FPAdd(q, FPDivRaw(r, b))

FPRat(n, d) == FPDiv(FPInt(n), FPInt(d))

\* a < b, a <= b
FPLess(a, b) ==
  IF FPIsNaN(a) \/ FPIsNaN(b) THEN FALSE
  ELSE IF ~FPFinite(a) \/ ~FPFinite(b)
  THEN LET va == IF FPFinite(a) THEN 0 ELSE a[1]
           vb == IF FPFinite(b) THEN 0 ELSE b[1]
       IN va < vb
  ELSE IF a[1] = 0 THEN b[1] > 0
  ELSE IF b[1] = 0 THEN a[1] < 0
  ELSE IF (a[1] < 0) # (b[1] < 0) THEN a[1] < 0
  ELSE IF a[2] = b[2] THEN a[1] < b[1]
  ELSE IF a[1] > 0 THEN a[2] < b[2] ELSE a[2] > b[2]

FPLeq(a, b) == a = b \/ FPLess(a, b)
FPMax(a, b) == IF FPLess(a, b) THEN b ELSE a
FPMin(a, b) == IF FPLess(a, b) THEN a ELSE b

\* |a - b| <= rel * max(|a|,|b|) + abs ; rel, abs are FP numbers
FPClose(a, b, rel, abs) ==
  IF a = b THEN TRUE
  ELSE IF ~FPFinite(a) \/ ~FPFinite(b) THEN FALSE
  ELSE FPLeq(FPAbs(FPSub(a, b)), FPAdd(FPMul(rel, FPMax(FPAbs(a), FPAbs(b))), abs))

E_(n) == <<100000000, n - 8>>      \* 10^n

FPSq(a) == FPMul(a, a)

RECURSIVE FPSumSeq(_, _)
FPSumSeq(s, i) == IF i > Len(s) THEN FPZero ELSE FPAdd(s[i], FPSumSeq(s, i + 1))
FPSum(s) == FPSumSeq(s, 1)

RECURSIVE FPDotAt(_, _, _)
FPDotAt(s, t, i) == IF i > Len(s) THEN FPZero ELSE FPAdd(FPMul(s[i], t[i]), FPDotAt(s, t, i + 1))
FPDot(s, t) == FPDotAt(s, t, 1)

------------------------------------------------------------------------------
FPOne == FPInt(1)
FPTwo == FPInt(2)
FPHalf == <<500000000, -9>>
FPLn10 == <<230258509, -8>>     \* 2.302585093 (see FPLn10Lo)
FPLn10Lo == <<299404568, -17>>  \* remainder of ln 10 beyond nine digits
FPLn2 == <<693147181, -9>>
FPPi == <<314159265, -8>>
FPHalfLn2Pi == <<918938533, -9>>   \* ln(2 pi)/2
FPSqrt2Pi == <<250662827, -8>>

\* atanh series: s + s^3/3 + ... + s^15/15
RECURSIVE FPAtanhTerms(_, _, _)
FPAtanhTerms(p, s2, k) ==
  IF k > 15 THEN FPZero
  ELSE FPAdd(FPDiv(p, FPInt(k)), FPAtanhTerms(FPMul(p, s2), s2, k + 2))

RECURSIVE FPLnReduce(_, _)
\* bring f into [0.7, 1.42) by doubling, counting the doublings
FPLnReduce(f, n) ==
  IF FPLess(f, <<700000000, -9>>) THEN FPLnReduce(FPAdd(f, f), n + 1) ELSE <<f, n>>

FPLn(a) ==
  IF a = FPPosInf THEN FPPosInf
  ELSE IF a[1] = 0 /\ FPFinite(a) THEN FPNegInf
  ELSE IF a[1] <= 0 \/ ~FPFinite(a) THEN FPNaN
  ELSE LET k == a[2] + 9
           r == FPLnReduce(<<a[1], -9>>, 0)
           s == FPDiv(FPSub(r[1], FPOne), FPAdd(r[1], FPOne))
           ln == FPMul(FPTwo, FPAtanhTerms(s, FPMul(s, s), 1))
       IN FPAdd(FPSub(ln, FPMul(FPInt(r[2]), FPLn2)),
                FPAdd(FPMul(FPInt(k), FPLn10), FPMul(FPInt(k), FPLn10Lo)))

RECURSIVE FPExpTerms(_, _, _)
FPExpTerms(p, x, k) ==
  IF k > 11 THEN FPZero ELSE FPAdd(p, FPExpTerms(FPDiv(FPMul(p, x), FPInt(k + 1)), x, k + 1))

\* integer part of an FP number known to be small in magnitude
FPTrunc(a) ==
  IF a[1] = 0 THEN 0
  ELSE IF a[2] >= 0 THEN a[1] * P10(a[2])
  ELSE IF a[2] < -9 THEN 0
  ELSE IF a[1] >= 0 THEN a[1] \div P10(-a[2]) ELSE -((-a[1]) \div P10(-a[2]))

FPExp(a) ==
  IF a = FPNegInf THEN FPZero ELSE IF ~FPFinite(a) THEN a
  ELSE IF FPLess(a, FPInt(-900)) THEN FPZero
  ELSE LET k == FPTrunc(FPDiv(a, FPLn10))
           r == FPSub(a, FPAdd(FPMul(FPInt(k), FPLn10), FPMul(FPInt(k), FPLn10Lo)))
           h == FPExpTerms(FPOne, FPDiv(r, FPInt(4)), 0)
       IN FPScale10(FPSq(FPSq(h)), k)

RECURSIVE FPNewton(_, _, _)
FPNewton(a, y, n) ==
  IF n = 0 THEN y ELSE FPNewton(a, FPMul(FPHalf, FPAdd(y, FPDiv(a, y))), n - 1)

FPSqrt(a) ==
  IF a[1] = 0 THEN FPZero ELSE IF a[1] < 0 THEN FPNaN ELSE IF ~FPFinite(a) THEN a
  ELSE LET odd == (a[2] % 2) # 0
           f == IF odd THEN FPNorm(a[1], -9) ELSE FPNorm(a[1], -8)   \* in [0.1,10)
           ee == IF odd THEN a[2] + 9 ELSE a[2] + 8
       IN FPScale10(FPNewton(f, FPMul(FPHalf, FPAdd(f, FPOne)), 7), ee \div 2)

\* erf by the all-positive series 2/sqrt(pi) exp(-x^2) sum 2^n x^(2n+1)/(2n+1)!!
RECURSIVE FPErfTerms(_, _, _, _)
FPErfTerms(t, x2, n, acc) ==
  IF n > 60 \/ FPLess(FPMul(acc, E_(-11)), t) = FALSE THEN FPAdd(acc, t)
  ELSE FPErfTerms(FPDiv(FPMul(FPMul(FPTwo, t), x2), FPInt(2 * n + 3)), x2, n + 1, FPAdd(acc, t))

FPErf(x) ==
  IF x[1] = 0 THEN FPZero
  ELSE IF FPLess(FPInt(5), FPAbs(x)) THEN (IF x[1] > 0 THEN FPOne ELSE FPInt(-1))
  ELSE LET y == FPAbs(x)
           v == FPMul(<<112837917, -8>>, FPMul(FPExp(FPNeg(FPSq(y))), FPErfTerms(y, FPSq(y), 0, FPZero)))
       IN IF x[1] > 0 THEN v ELSE FPNeg(v)

\* standard normal cumulative
FPPhi(z) == FPMul(FPHalf, FPAdd(FPOne, FPErf(FPMul(z, <<707106781, -9>>))))
============================================================================
