--------------------------- MODULE Distributions ---------------------------
(***************************************************************************)
(* The probability distributions of the library, by their defining         *)
(* formulas, in the decimal arithmetic of FP.tla.  A distribution is a     *)
(* record with field k (family) and its arguments as FP numbers:           *)
(*   normal m s | uniform m h | duniform lo hi c | delta m                 *)
(*   lognormal m f | asym m r l | half m s | gamma a loc sc                *)
(*   gammapos a loc sc (gamma restricted to x >= 0)                        *)
(*   num  ks ys (piecewise linear density through the knots)               *)
(*   opaque (only the agreement of its views is specified)                 *)
(*   mvn mu cov                                                            *)
(***************************************************************************)
EXTENDS Integers, Sequences, FP

Seq1(n) == [j \in 1..n |-> j]

\* ---- gamma function -----------------------------------------------------
RECURSIVE FPLnGamma(_)
FPLnGamma(a) ==
  IF FPLess(a, FPInt(8)) THEN FPSub(FPLnGamma(FPAdd(a, FPOne)), FPLn(a))
  ELSE LET i == FPDiv(FPOne, a)
           i3 == FPMul(i, FPSq(i))
       IN FPAdd(FPSub(FPMul(FPSub(a, FPHalf), FPLn(a)), a),
            FPAdd(FPHalfLn2Pi,
              FPAdd(FPSub(FPMul(i, FPRat(1, 12)), FPMul(i3, FPRat(1, 360))),
                    FPMul(FPMul(i3, FPSq(i)), FPRat(1, 1260)))))

\* regularised lower incomplete gamma function, series
RECURSIVE FPGamSeries(_, _, _, _, _)
FPGamSeries(t, a, x, n, acc) ==
  IF n > 150 \/ ~FPLess(FPMul(acc, E_(-10)), t) THEN FPAdd(acc, t)
  ELSE FPGamSeries(FPDiv(FPMul(t, x), FPAdd(a, FPInt(n + 1))), a, x, n + 1, FPAdd(acc, t))
FPGammaP(a, x) ==
  IF x[1] <= 0 THEN FPZero
  ELSE LET pre == FPExp(FPSub(FPSub(FPMul(a, FPLn(x)), x), FPLnGamma(FPAdd(a, FPOne))))
       IN FPMin(FPOne, FPMul(pre, FPGamSeries(FPOne, a, x, 0, FPZero)))

Z(x, m, s) == FPDiv(FPSub(x, m), s)
LnN(z, s) == FPSub(FPSub(FPNeg(FPMul(FPHalf, FPSq(z))), FPLn(s)), FPHalfLn2Pi)

\* ---- numerical distribution: knots ks, heights ys -----------------------
SegArea(d, j) == FPMul(FPHalf, FPMul(FPSub(d.ks[j + 1], d.ks[j]), FPAdd(d.ys[j], d.ys[j + 1])))
NumNorm(d) == FPSum([j \in 1..(Len(d.ks) - 1) |-> SegArea(d, j)])
SegOf(d, x) == CHOOSE j \in 1..(Len(d.ks) - 1) : FPLeq(d.ks[j], x) /\ FPLeq(x, d.ks[j + 1])
NumIn(d, x) == FPLeq(d.ks[1], x) /\ FPLeq(x, d.ks[Len(d.ks)])
NumY(d, x) == LET j == SegOf(d, x)
                  t == FPDiv(FPSub(x, d.ks[j]), FPSub(d.ks[j + 1], d.ks[j]))
              IN FPAdd(d.ys[j], FPMul(t, FPSub(d.ys[j + 1], d.ys[j])))
NumCdf(d, x) ==
  IF FPLess(x, d.ks[1]) THEN FPZero ELSE IF ~NumIn(d, x) THEN FPOne
  ELSE LET j == SegOf(d, x)
           part == FPMul(FPHalf, FPMul(FPSub(x, d.ks[j]), FPAdd(d.ys[j], NumY(d, x))))
       IN FPDiv(FPAdd(FPSum([n \in 1..(j - 1) |-> SegArea(d, n)]), part), NumNorm(d))

\* ---- validity of arguments ----------------------------------------------
Pos(x) == FPLess(FPZero, x)
ValidArgs(d) ==
  CASE d.k = "normal" -> Pos(d.s)
    [] d.k = "asym" -> Pos(d.r) /\ Pos(d.l)
    [] d.k = "half" -> d.s[1] # 0
    [] d.k = "lognormal" -> d.m[1] # 0 /\ FPLess(FPOne, d.f)
    [] d.k \in {"gamma", "gammapos"} -> FPLeq(d.loc, FPZero)
    [] d.k = "duniform" -> FPLeq(d.lo, d.c) /\ FPLeq(d.c, d.hi)
    [] OTHER -> TRUE

\* ---- log-density ----------------------------------------------------------
HasPdf(d) == d.k # "opaque"
DLogpdf(d, x) ==
  CASE d.k = "normal" -> LnN(Z(x, d.m, d.s), d.s)
    [] d.k = "uniform" -> IF FPLeq(FPAbs(FPSub(x, d.m)), d.h) THEN FPNeg(FPLn(FPMul(FPTwo, d.h))) ELSE FPNegInf
    [] d.k = "duniform" -> IF FPLeq(d.lo, x) /\ FPLeq(x, d.hi) /\ FPInt(FPTrunc(x)) = x
                           THEN FPNeg(FPLn(FPAdd(FPSub(d.hi, d.lo), FPOne))) ELSE FPNegInf
    [] d.k = "delta" -> IF x = d.m THEN FPZero ELSE FPNegInf
    [] d.k = "lognormal" ->
         LET y == IF d.m[1] < 0 THEN FPNeg(x) ELSE x
         IN IF y[1] <= 0 THEN FPNegInf
            ELSE FPSub(LnN(FPDiv(FPLn(FPDiv(y, FPAbs(d.m))), FPLn(d.f)), FPLn(d.f)), FPLn(y))
    [] d.k = "asym" ->
         LET s == IF FPLess(x, d.m) THEN d.l ELSE d.r
         IN FPSub(FPSub(FPNeg(FPMul(FPHalf, FPSq(Z(x, d.m, s)))), FPLn(FPMul(FPHalf, FPAdd(d.l, d.r)))), FPHalfLn2Pi)
    [] d.k = "half" ->
         IF (FPSub(x, d.m)[1] < 0 /\ d.s[1] > 0) \/ (FPSub(x, d.m)[1] > 0 /\ d.s[1] < 0) THEN FPNegInf
         ELSE FPAdd(FPLn2, LnN(Z(x, d.m, FPAbs(d.s)), FPAbs(d.s)))
    [] d.k \in {"gamma", "gammapos"} ->
         LET z == Z(x, d.loc, d.sc)
             raw == FPSub(FPSub(FPSub(FPMul(FPSub(d.a, FPOne), IF d.a = FPOne THEN FPZero ELSE FPLn(z)), z), FPLnGamma(d.a)), FPLn(d.sc))
         IN IF z[1] < 0 \/ (z[1] = 0 /\ d.a # FPOne) THEN FPNegInf
            ELSE IF d.k = "gamma" THEN raw
            ELSE IF x[1] < 0 THEN FPNegInf
            ELSE FPSub(raw, FPLn(FPSub(FPOne, FPGammaP(d.a, Z(FPZero, d.loc, d.sc)))))
    [] d.k = "num" -> IF NumIn(d, x) THEN FPLn(FPDiv(NumY(d, x), NumNorm(d))) ELSE FPNegInf

\* ---- cumulative -----------------------------------------------------------
DCdf(d, x) ==
  CASE d.k = "normal" -> FPPhi(Z(x, d.m, d.s))
    [] d.k = "uniform" ->
         FPMax(FPZero, FPMin(FPOne, FPDiv(FPAdd(FPSub(x, d.m), d.h), FPMul(FPTwo, d.h))))
    [] d.k = "duniform" -> IF FPLess(x, d.lo) THEN FPZero
                           ELSE FPMin(FPOne, FPDiv(FPAdd(FPSub(FPInt(FPTrunc(x)), d.lo), FPOne), FPAdd(FPSub(d.hi, d.lo), FPOne)))
    [] d.k = "delta" -> IF FPLess(x, d.m) THEN FPZero ELSE FPOne
    [] d.k = "lognormal" ->
         IF d.m[1] > 0 THEN (IF x[1] <= 0 THEN FPZero ELSE FPPhi(FPDiv(FPLn(FPDiv(x, d.m)), FPLn(d.f))))
         ELSE (IF x[1] >= 0 THEN FPOne ELSE FPPhi(FPNeg(FPDiv(FPLn(FPDiv(x, d.m)), FPLn(d.f)))))
    [] d.k = "asym" ->
         LET w == FPAdd(d.l, d.r) IN
         IF FPLess(x, d.m) THEN FPMul(FPDiv(FPMul(FPTwo, d.l), w), FPPhi(Z(x, d.m, d.l)))
         ELSE FPAdd(FPDiv(d.l, w), FPMul(FPDiv(FPMul(FPTwo, d.r), w), FPSub(FPPhi(Z(x, d.m, d.r)), FPHalf)))
    [] d.k = "half" ->
         LET z == Z(x, d.m, FPAbs(d.s)) IN
         IF d.s[1] > 0 THEN (IF z[1] <= 0 THEN FPZero ELSE FPSub(FPMul(FPTwo, FPPhi(z)), FPOne))
         ELSE (IF z[1] >= 0 THEN FPOne ELSE FPMul(FPTwo, FPPhi(z)))
    [] d.k = "gamma" -> FPGammaP(d.a, Z(x, d.loc, d.sc))
    [] d.k = "gammapos" ->
         LET c0 == FPGammaP(d.a, Z(FPZero, d.loc, d.sc)) IN
         IF x[1] <= 0 THEN FPZero
         ELSE FPDiv(FPSub(FPGammaP(d.a, Z(x, d.loc, d.sc)), c0), FPSub(FPOne, c0))
    [] d.k = "num" -> NumCdf(d, x)

\* ---- central value: mode, except the median of the log-normal ------------
NumMode(d, x) == \A j \in 1..Len(d.ys) : FPLeq(FPMul(d.ys[j], <<999999990, -9>>), NumY(d, x))
DCentralOk(d, v) ==
  CASE d.k \in {"normal", "uniform", "delta", "lognormal", "asym", "half"} -> FPClose(v, d.m, E_(-8), FPZero)
    [] d.k = "duniform" -> v = d.c
    [] d.k = "gamma" -> FPClose(v, FPAdd(d.loc, FPMul(FPSub(d.a, FPOne), d.sc)), E_(-7), FPMul(d.sc, E_(-7)))
    [] d.k = "gammapos" -> FPClose(v, FPMax(FPZero, FPAdd(d.loc, FPMul(FPSub(d.a, FPOne), d.sc))), E_(-7), FPMul(d.sc, E_(-7)))
    [] d.k = "num" -> IF "c" \in DOMAIN d THEN v = d.c ELSE NumIn(d, v) /\ NumMode(d, v)
    [] OTHER -> TRUE

CL(n) == FPErf(FPMul(n, <<707106781, -9>>))

\* ---- multivariate normal: Schur-complement elimination --------------------
SubM(M, J) == [a \in 1..Len(J) |-> [b \in 1..Len(J) |-> M[J[a]][J[b]]]]
Elim(M) == [a \in 1..(Len(M) - 1) |-> [b \in 1..(Len(M) - 1) |->
              FPSub(M[a + 1][b + 1], FPDiv(FPMul(M[a + 1][1], M[1][b + 1]), M[1][1]))]]
ElimV(M, v) == [a \in 1..(Len(v) - 1) |-> FPSub(v[a + 1], FPDiv(FPMul(M[a + 1][1], v[1]), M[1][1]))]
RECURSIVE MQuad(_, _)
MQuad(M, v) == IF Len(v) = 0 THEN FPZero
               ELSE FPAdd(FPDiv(FPSq(v[1]), M[1][1]), MQuad(Elim(M), ElimV(M, v)))
RECURSIVE MLnDet(_)
MLnDet(M) == IF Len(M) = 0 THEN FPZero ELSE FPAdd(FPLn(M[1][1]), MLnDet(Elim(M)))
MVLogpdf(mu, cov, J, x) ==
  LET M == SubM(cov, J)
      v == [a \in 1..Len(J) |-> FPSub(x[a], mu[J[a]])]
  IN FPSub(FPNeg(FPMul(FPHalf, FPAdd(MQuad(M, v), MLnDet(M)))), FPMul(FPInt(Len(J)), FPHalfLn2Pi))
MVDelta(mu, cov, J, x) ==
  FPNeg(FPMul(FPHalf, MQuad(SubM(cov, J), [a \in 1..Len(J) |-> FPSub(x[a], mu[J[a]])])))

\* the covariance stated by the constructor's arguments: a full or an upper
\* triangular covariance, or standard deviations with a correlation given as
\* a full or triangular matrix, one number, or not at all
IsTri(M) == \A a, b \in 1..Len(M) : a > b => M[a][b][1] = 0
Full(M) == IF IsTri(M) THEN [a \in 1..Len(M) |-> [b \in 1..Len(M) |-> IF a <= b THEN M[a][b] ELSE M[b][a]]] ELSE M
StatedCov(e) ==
  IF e.form = "cov" THEN Full(e.cov)
  ELSE LET n == Len(e.sd)
           R == IF e.form = "corr" THEN Full(e.corr)
                ELSE [a \in 1..n |-> [b \in 1..n |-> IF a = b THEN FPOne ELSE IF e.form = "rho" THEN e.rho ELSE FPZero]]
       IN [a \in 1..n |-> [b \in 1..n |-> FPMul(R[a][b], FPMul(e.sd[a], e.sd[b]))]]
============================================================================
