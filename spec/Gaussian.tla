----------------------------- MODULE Gaussian -----------------------------
(***************************************************************************)
(* Elementary probability densities with integer-valued data, in decimal   *)
(* floating point.  A distribution is a record                             *)
(*   [k |-> "normal",  mu |-> <<m>>, s |-> sigma]                          *)
(*   [k |-> "uniform", mu |-> <<m>>, s |-> half_range]                     *)
(*   [k |-> "asym",    mu |-> <<m>>, r |-> right, l |-> left]              *)
(*   [k |-> "delta",   mu |-> <<m>>]                                       *)
(*   [k |-> "mvn",     mu |-> <<m1,..>>, cov |-> matrix]   (dim 2 or 3)    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FP

Dim(d) == Len(d.mu)

DistCentral(d, j) == FPInt(d.mu[j])

FPMat(M) == [a \in 1..Len(M) |-> [b \in 1..Len(M) |-> FPInt(M[a][b])]]

Sub(M, J) == [a \in 1..Len(J) |-> [b \in 1..Len(J) |-> M[J[a]][J[b]]]]

\* determinants and quadratic forms of 1x1 .. 3x3 matrices (FP entries)
Det(M) ==
  IF Len(M) = 1 THEN M[1][1]
  ELSE IF Len(M) = 2 THEN FPSub(FPMul(M[1][1], M[2][2]), FPMul(M[1][2], M[2][1]))
  ELSE FPAdd(FPSub(FPMul(M[1][1], FPSub(FPMul(M[2][2], M[3][3]), FPMul(M[2][3], M[3][2]))),
                   FPMul(M[1][2], FPSub(FPMul(M[2][1], M[3][3]), FPMul(M[2][3], M[3][1])))),
             FPMul(M[1][3], FPSub(FPMul(M[2][1], M[3][2]), FPMul(M[2][2], M[3][1]))))

\* cofactor matrix (symmetric input): adjugate
Adj(M) ==
  IF Len(M) = 1 THEN << <<FPOne>> >>
  ELSE IF Len(M) = 2 THEN << <<M[2][2], FPNeg(M[1][2])>>, <<FPNeg(M[2][1]), M[1][1]>> >>
  ELSE [a \in 1..3 |-> [b \in 1..3 |->
         LET r == SelectSeq(<<1, 2, 3>>, LAMBDA q : q # b)
             s == SelectSeq(<<1, 2, 3>>, LAMBDA q : q # a)
             v == FPSub(FPMul(M[r[1]][s[1]], M[r[2]][s[2]]), FPMul(M[r[1]][s[2]], M[r[2]][s[1]]))
         IN IF (a + b) % 2 = 0 THEN v ELSE FPNeg(v)]]

RECURSIVE QuadRows(_, _, _)
QuadRows(A, v, a) ==
  IF a > Len(v) THEN FPZero
  ELSE FPAdd(FPMul(v[a], FPDot(A[a], v)), QuadRows(A, v, a + 1))
\* v' M^-1 v
QuadInv(M, v) == FPDiv(QuadRows(Adj(M), v, 1), Det(M))

\* log-density of the marginal over positions J at xs
DistLogp(d, J, xs, delta) ==
  CASE d.k = "normal" ->
         LET z == FPDiv(FPSub(xs[1], FPInt(d.mu[1])), FPInt(d.s))
             q == FPNeg(FPMul(FPHalf, FPSq(z)))
         IN IF delta THEN q ELSE FPSub(FPSub(q, FPLn(FPInt(d.s))), FPHalfLn2Pi)
    [] d.k = "uniform" ->
         LET inside == FPLeq(FPAbs(FPSub(xs[1], FPInt(d.mu[1]))), FPInt(d.s))
         IN IF ~inside THEN FPNegInf
            ELSE IF delta THEN FPZero ELSE FPNeg(FPLn(FPInt(2 * d.s)))
    [] d.k = "asym" ->
         LET dx == FPSub(xs[1], FPInt(d.mu[1]))
             s == IF dx[1] < 0 THEN d.l ELSE d.r
             q == FPNeg(FPMul(FPHalf, FPSq(FPDiv(dx, FPInt(s)))))
         IN IF delta THEN q
            ELSE FPSub(FPSub(q, FPLn(FPRat(d.l + d.r, 2))), FPHalfLn2Pi)
    [] d.k = "delta" ->
         IF FPClose(xs[1], FPInt(d.mu[1]), E_(-9), FPZero) THEN FPZero ELSE FPNegInf
    [] d.k = "mvn" ->
         LET M == FPMat(Sub(d.cov, J))
             v == [a \in 1..Len(J) |-> FPSub(xs[a], FPInt(d.mu[J[a]]))]
             q == FPNeg(FPMul(FPHalf, QuadInv(M, v)))
         IN IF delta THEN q
            ELSE FPSub(FPSub(q, FPMul(FPHalf, FPLn(Det(M)))), FPMul(FPInt(Len(J)), FPHalfLn2Pi))

SigmaOf(d, j) ==
  CASE d.k = "normal" -> FPInt(d.s)
    [] d.k = "mvn" -> FPSqrt(FPInt(d.cov[j][j]))
    [] d.k = "uniform" -> FPDiv(FPInt(d.s), FPSqrt(FPInt(3)))
    [] d.k = "asym" -> FPInt(IF d.l > d.r THEN d.l ELSE d.r)
    [] d.k = "delta" -> FPZero

\* 68% one-sided errors as the library defines them: the interval on each
\* side of the mode holding 68.27% of the probability on that side
DistErrRight(d, j) ==
  CASE d.k = "uniform" -> FPMul(FPInt(d.s), <<682689492, -9>>)
    [] d.k = "asym" -> FPInt(d.r)
    [] OTHER -> SigmaOf(d, j)
DistErrLeft(d, j) == IF d.k = "asym" THEN FPInt(d.l) ELSE DistErrRight(d, j)

\* a draw v of component j is possible (9 sigma; a genuine draw violates
\* this with probability below 1e-18)
DrawPossible(d, j, v) ==
  LET dx == FPSub(v, FPInt(d.mu[j])) IN
  CASE d.k = "uniform" -> FPLeq(FPAbs(dx), FPMul(FPInt(d.s), <<100000001, -8>>))
    [] d.k = "asym" -> FPLeq(FPAbs(dx), FPInt(9 * (IF dx[1] < 0 THEN d.l ELSE d.r)))
    [] d.k = "delta" -> FPClose(v, FPInt(d.mu[j]), E_(-9), FPZero)
    [] OTHER -> FPLeq(FPAbs(dx), FPMul(FPInt(9), SigmaOf(d, j)))

\* two components j1, j2 of one multivariate draw are jointly possible:
\* z1 - z2 has variance 2 - 2 rho
JointlyPossible(d, j1, v1, j2, v2) ==
  LET z1 == FPDiv(FPSub(v1, FPInt(d.mu[j1])), SigmaOf(d, j1))
      z2 == FPDiv(FPSub(v2, FPInt(d.mu[j2])), SigmaOf(d, j2))
      rho == FPDiv(FPInt(d.cov[j1][j2]), FPMul(SigmaOf(d, j1), SigmaOf(d, j2)))
      var == FPSub(FPTwo, FPMul(FPTwo, rho))
  IN FPLeq(FPSq(FPSub(z1, z2)), FPAdd(FPMul(FPInt(81), var), E_(-5)))
============================================================================
