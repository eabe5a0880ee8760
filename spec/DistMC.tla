------------------------------- MODULE DistMC -------------------------------
(***************************************************************************)
(* Consistency of the specification itself: for every family and argument  *)
(* of a lattice, the specified log-density integrates to the differences   *)
(* of the specified cumulative, and the multivariate density factorises    *)
(* for uncorrelated components and does not depend on their order.         *)
(***************************************************************************)
EXTENDS Distributions, TLC
VARIABLES d, x, w
I(n) == FPInt(n)
Lattice ==
  {[k |-> "normal", m |-> I(m), s |-> I(s)] : m \in {-3, 0, 5}, s \in {1, 2}} \cup
  {[k |-> "uniform", m |-> I(m), h |-> I(20)] : m \in {-1, 2}} \cup
  {[k |-> "lognormal", m |-> I(m), f |-> FPRat(f, 2)] : m \in {-4, 3}, f \in {3, 5}} \cup
  {[k |-> "asym", m |-> I(m), r |-> I(r), l |-> I(l)] : m \in {-8, 8}, r \in {1, 3}, l \in {1, 2}} \cup
  {[k |-> "half", m |-> I(8 * s), s |-> I(s)] : s \in {-2, -1}} \cup
  {[k |-> "half", m |-> I(-8), s |-> I(s)] : s \in {1, 2}} \cup
  {[k |-> g, a |-> FPRat(a, 2), loc |-> I(-l), sc |-> I(s)] : g \in {"gamma", "gammapos"}, a \in {2, 4, 7}, l \in {0, 2}, s \in {1, 2}}
Init == d \in Lattice /\ x = -6 /\ w \in {1, 2}
Next == x < 6 /\ x' = x + 2 /\ UNCHANGED <<d, w>>
Lo == FPSub(I(x), FPRat(w, 16))
Hi == FPAdd(I(x), FPRat(w, 16))
Dom == CASE d.k = "lognormal" -> (IF d.m[1] > 0 THEN x >= 1 ELSE x <= -1)
         [] d.k = "gammapos" -> x >= 1 [] d.k = "gamma" -> x >= 1 - FPTrunc(FPNeg(d.loc))
         [] OTHER -> TRUE
At(j) == FPAdd(Lo, FPMul(FPRat(j, 4), FPSub(Hi, Lo)))
F(j) == FPExp(DLogpdf(d, At(j)))
Quad == FPMul(FPDiv(FPSub(Hi, Lo), FPInt(90)),
         FPAdd(FPAdd(FPMul(FPInt(7), FPAdd(F(0), F(4))), FPMul(FPInt(32), FPAdd(F(1), F(3)))), FPMul(FPInt(12), F(2))))
Integrates == Dom => FPClose(Quad, FPSub(DCdf(d, Hi), DCdf(d, Lo)), E_(-6), E_(-6))
\* multivariate: factorisation, order independence, nested marginals
C(a, b, c, r) == << <<I(a), r, FPZero>>, <<r, I(b), FPZero>>, <<FPZero, FPZero, I(c)>> >>
Mv == LET mu == <<I(1), I(x), I(-2)>>
          M == C(4, 9, w, I(3))
          v == <<FPRat(x, 2), I(2), I(1)>>
          P == << M[2][2] >>
      IN /\ FPClose(MVLogpdf(mu, M, <<1, 2, 3>>, v),
                    FPAdd(MVLogpdf(mu, M, <<1, 2>>, <<v[1], v[2]>>), MVLogpdf(mu, M, <<3>>, <<v[3]>>)), E_(-7), E_(-7))
         /\ FPClose(MVLogpdf(mu, M, <<1, 2>>, <<v[1], v[2]>>), MVLogpdf(mu, M, <<2, 1>>, <<v[2], v[1]>>), E_(-7), E_(-7))
Inv == Integrates /\ Mv
=============================================================================
