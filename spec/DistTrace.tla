----------------------------- MODULE DistTrace -----------------------------
(* Judges the views of one distribution object recorded from the library.  *)
EXTENDS Distributions, FiniteSets, TLC, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.VERIF_TRACE)
Rng(s) == {s[k] : k \in 1..Len(s)}
Ok(st) == [st |-> st, err |-> ""]
Bad(st, m) == [st |-> st, err |-> m]
Check(st, conds) ==
  LET F == {k \in 1..Len(conds) : ~conds[k][1]} IN
  IF F = {} THEN Ok(st) ELSE Bad(st, conds[CHOOSE k \in F : \A m \in F : k <= m][2])

Num(x) == x # FPNaN /\ x # <<2, 9999>>
LClose(a, b) == FPClose(a, b, <<300000000, -14>>, <<300000000, -13>>)    \* 3e-6, 3e-5
MClose(a, b) == FPClose(a, b, <<300000000, -13>>, <<100000000, -12>>)    \* multivariate: 3e-5, 1e-4
PTol(d) == IF d.k \in {"num", "opaque"} THEN <<100000000, -10>> ELSE <<200000000, -14>>   \* 1e-2 | 2e-6
PClose(d, a, b) == FPClose(a, b, FPZero, PTol(d))
GClose(a, b) == FPClose(a, b, <<300000000, -14>>, FPZero)

IndexClose(xs, ys, cl(_, _)) == Len(xs) = Len(ys) /\ \A j \in 1..Len(xs) : cl(xs[j], ys[j])

\* composite Boole rule on 5 equidistant values of exp(logpdf)
Boole(e) ==
  LET f == [j \in 1..5 |-> FPExp(e.lp[j])]
      s == FPAdd(FPAdd(FPMul(FPInt(7), FPAdd(f[1], f[5])), FPMul(FPInt(32), FPAdd(f[2], f[4]))), FPMul(FPInt(12), f[3]))
  IN FPMul(FPDiv(FPSub(e.x1, e.x0), FPInt(90)), s)

\* probability the specification assigns to (-inf, x]; recorded cdf if opaque
Prob(d, x, rec) == IF d.k = "opaque" THEN rec ELSE DCdf(d, x)

ErrCheck(st, e) ==
  LET d == st.d
      c == e.c
      pl == Prob(d, FPSub(c, e.l), e.cdfl)
      pr == Prob(d, FPAdd(c, e.r), e.cdfr)
      cov == FPSub(pr, pl)
      oneSided == d.k = "gammapos" /\ PClose(d, DCdf(d, e.r), CL(e.n)) /\ GClose(e.l, c)
      tol == IF d.k \in {"num", "opaque"} THEN <<150000000, -10>> ELSE <<300000000, -13>>
  IN Check(st, <<
       <<Num(e.l) /\ Num(e.r) /\ (e.method = "limit" \/ (~FPLess(e.l, FPZero) /\ ~FPLess(e.r, FPZero))), "errors are not non-negative numbers">>,
       <<e.prop = "" \/ (FPClose(e.l, e.al, E_(-7), FPZero) /\ FPClose(e.r, e.ar, E_(-7), FPZero)), "error_left/error_right differ from the errors at one sigma">>,
       <<d.k \notin {"delta", "duniform"} \/ (e.l[1] = 0 /\ e.r[1] = 0), "a fixed or discrete value has no errors">>,
       <<d.k \notin {"normal", "asym", "half"} \/
           (FPClose(e.l, FPMul(e.n, IF d.k = "normal" THEN d.s ELSE IF d.k = "asym" THEN d.l ELSE IF d.s[1] < 0 THEN FPAbs(d.s) ELSE FPZero), E_(-7), FPZero) /\
            FPClose(e.r, FPMul(e.n, IF d.k = "normal" THEN d.s ELSE IF d.k = "asym" THEN d.r ELSE IF d.s[1] > 0 THEN d.s ELSE FPZero), E_(-7), FPZero)),
         "errors differ from the stated deviations">>,
       <<d.k # "uniform" \/ (GClose(e.l, FPMul(CL(e.n), d.h)) /\ GClose(e.r, FPMul(CL(e.n), d.h))), "errors of a uniform distribution do not hold the confidence">>,
       <<d.k # "lognormal" \/ (FPClose(pr, FPAdd(FPHalf, FPMul(FPHalf, CL(e.n))), FPZero, tol) /\ FPClose(pl, FPSub(FPHalf, FPMul(FPHalf, CL(e.n))), FPZero, tol)),
         "errors of a log-normal distribution do not hold the confidence on each side of the median">>,
       <<d.k \in {"delta", "duniform"} \/ e.method = "limit" \/ FPClose(cov, CL(e.n), FPZero, tol) \/ oneSided,
         "the interval between the errors does not contain the stated confidence">>,
       <<d.k \notin {"gamma", "gammapos"} \/ oneSided \/ LClose(e.lpl, e.lpr) \/ FPClose(e.lpl, e.lpr, E_(-4), E_(-4)),
         "the errors do not bound an interval of highest density">>,
       <<e.method # "central" \/ LET pc == Prob(d, c, e.cdfc) IN FPClose(FPSub(pr, pc), FPMul(FPSub(FPOne, pc), CL(e.n)), FPZero, tol),
         "a central error does not hold the confidence of its side">>,
       <<e.method # "limit" \/ (FPClose(pr, CL(e.n), FPZero, tol) /\ FPClose(pl, FPSub(FPOne, CL(e.n)), FPZero, tol)),
         "a one-sided error does not hold the stated confidence">>,
       <<e.method # "hpd" \/ FPClose(e.lpl, e.lpr, FPZero, <<300000000, -10>>), "an hpd error does not bound an interval of highest density">>>>)

\* Kolmogorov-Smirnov distance of N sorted draws at some ranks
DrawCheck(st, e) ==
  LET d == st.d
      KS == FPDiv(FPInt(3), FPSqrt(FPInt(e.n)))
      F(j) == Prob(d, e.x[j], e.cdf[j])
      bad == IF d.k \in {"delta", "duniform"} THEN {} ELSE
             {j \in 1..Len(e.x) : ~FPClose(F(j), FPRat(e.rank[j], e.n), FPZero, FPAdd(KS, PTol(d)))}
      badD == IF d.k # "duniform" THEN {} ELSE
              {j \in 1..Len(e.x) :
                 \/ DLogpdf(d, e.x[j]) = FPNegInf
                 \/ FPLess(F(j), FPSub(FPRat(e.rank[j], e.n), KS))
                 \/ FPLess(FPAdd(FPRat(e.rank[j], e.n), KS), FPSub(F(j), FPDiv(FPOne, FPAdd(FPSub(d.hi, d.lo), FPOne))))}
  IN Check(st, <<
       <<e.got = e.n, "the number of draws differs from the requested size">>,
       <<e.scalar, "a single draw is not a number">>,
       <<d.k # "delta" \/ \A j \in 1..Len(e.x) : FPClose(e.x[j], d.m, E_(-8), FPZero), "a draw of a fixed value differs from it">>,
       <<d.k = "delta" \/ (FPLeq(st.lo, FPAdd(e.x[1], FPMul(E_(-7), FPSub(st.hi, st.lo)))) /\ FPLeq(FPSub(e.x[Len(e.x)], FPMul(E_(-7), FPSub(st.hi, st.lo))), st.hi)) \/ st.soft,
         "a draw lies outside the support">>,
       <<bad = {} /\ badD = {}, "random draws do not follow the cumulative distribution">>>>)

\* ---- multivariate -----------------------------------------------------------
Keep(n, excl) == SelectSeq(Seq1(n), LAMBDA j : ~\E k \in 1..Len(excl) : excl[k] = j)
MatClose(A, B, tol) ==
  Len(A) = Len(B) /\ \A a \in 1..Len(A) : Len(A[a]) = Len(B[a]) /\
    \A b \in 1..Len(A) : FPClose(A[a][b], B[a][b], tol, FPMul(tol, FPSqrt(FPMul(FPAbs(A[a][a]), FPAbs(A[b][b])))))
MVCheck(st, e) ==
  LET d == st.d
      n == Len(d.mu)
  IN CASE e.op = "mvattr" ->
            Check(st, <<<<MatClose(d.cov, e.cov, E_(-7)), "the covariance is not the stated one">>,
                        <<Len(e.c) = n /\ \A j \in 1..n : FPClose(e.c[j], d.mu[j], E_(-8), FPZero), "the central value is not the stated one">>,
                        <<\A j \in 1..n : FPClose(FPSq(e.sd[j]), d.cov[j][j], E_(-7), FPZero), "standard deviations are not the roots of the variances">>,
                        <<\A a, b \in 1..n : FPClose(FPMul(e.corr[a][b], FPSqrt(FPMul(d.cov[a][a], d.cov[b][b]))), d.cov[a][b], E_(-7), FPMul(E_(-8), FPSqrt(FPMul(d.cov[a][a], d.cov[b][b])))), "the correlation does not belong to the covariance">>,
                        <<\A j \in 1..n : FPClose(e.l[j], FPMul(e.n, FPSqrt(d.cov[j][j])), E_(-7), FPZero) /\ FPClose(e.r[j], e.l[j], E_(-8), FPZero), "errors are not the standard deviations">>>>)
       [] e.op = "mvlogpdf" ->
            LET J == Keep(n, e.excl) IN
            Check(st, <<<<\A k \in 1..Len(e.x) : MClose(MVLogpdf(d.mu, d.cov, J, e.x[k]), e.v[k]),
                          "the log-density is not that of the marginal over the remaining components">>,
                        <<\A k \in 1..Len(e.x) : MClose(MVDelta(d.mu, d.cov, J, e.x[k]), e.dv[k]),
                          "the relative log-density does not vanish at the central value">>>>)
       [] e.op = "mvreduce" ->
            LET J == Keep(n, e.excl) IN
            Check(st, <<<<Len(e.c) = Len(J) /\ \A k \in 1..Len(J) : FPClose(e.c[k], d.mu[J[k]], E_(-8), FPZero), "the reduced central value is not that of the remaining components">>,
                        <<\A k \in 1..Len(J) : FPClose(FPSq(e.sd[k]), d.cov[J[k]][J[k]], E_(-7), FPZero), "the reduced errors are not those of the remaining components">>,
                        <<\A k \in 1..Len(e.x) : MClose(MVLogpdf(d.mu, d.cov, J, e.x[k]), e.v[k]), "the reduced distribution is not the marginal over the remaining components">>>>)
       [] e.op = "mvdraw" ->
            \* sample means and covariances of z-scores
            Check(st, <<<<e.got = <<e.n, n>> /\ e.one = n, "the draws have the wrong shape">>,
                        <<\A a \in 1..n : FPClose(e.m[a], d.mu[a], FPZero, FPMul(FPDiv(FPInt(6), FPSqrt(FPInt(e.n))), FPSqrt(d.cov[a][a]))), "the mean of the draws is not the central value">>,
                        <<\A a, b \in 1..n : FPClose(e.cov[a][b], d.cov[a][b], FPZero, FPMul(FPDiv(FPInt(9), FPSqrt(FPInt(e.n))), FPSqrt(FPMul(d.cov[a][a], d.cov[b][b])))), "the covariance of the draws is not the stated one">>>>)

\* ---- multivariate numerical: density on a grid -------------------------------
\* st.d = [k|->"mvnum", xi (sequence of grids), y (sequence of [i (index tuple), v])]
GridPoint(d, i) == [k \in 1..Len(d.xi) |-> d.xi[k][i[k]]]
Vol(d) == LET RECURSIVE V(_)
              V(k) == IF k > Len(d.xi) THEN FPOne ELSE FPMul(FPSub(d.xi[k][2], d.xi[k][1]), V(k + 1)) IN V(1)
MVTot(d) == FPSum([j \in 1..Len(d.y) |-> d.y[j].v])
MaxOf(S) == CHOOSE m \in S : \A x \in S : FPLeq(x, m)
GridVal(d, i) == FPDiv(FPDiv(d.y[CHOOSE j \in 1..Len(d.y) : d.y[j].i = i].v, MVTot(d)), Vol(d))
\* profile over the excluded axes, at the kept indices i
Profile(d, J, i) == FPDiv(FPDiv(MaxOf({d.y[j].v : j \in {m \in 1..Len(d.y) : \A a \in 1..Len(J) : d.y[m].i[J[a]] = i[a]}}), MVTot(d)), Vol(d))
MNCheck(st, e) ==
  LET d == st.d
      n == Len(d.xi)
  IN CASE e.op = "mncentral" ->
            Check(st, <<<<IF "c" \in DOMAIN d THEN e.c = d.c
                          ELSE \E j \in 1..Len(d.y) : GridPoint(d, d.y[j].i) = e.c /\ \A m \in 1..Len(d.y) : FPLeq(d.y[m].v, d.y[j].v),
                          "the central value is not the stated one or the mode">>,
                        <<\A a \in 1..n : e.lo[a] = d.xi[a][1] /\ e.hi[a] = d.xi[a][Len(d.xi[a])], "the support is not the range of the grid">>>>)
       [] e.op = "mnlogpdf" ->
            Check(st, <<<<\A k \in 1..Len(e.i) : FPClose(FPLn(GridVal(d, e.i[k])), e.v[k], E_(-6), E_(-5)), "the log-density differs from the normalised grid values">>,
                        <<e.out = FPNegInf, "the density outside the grid does not vanish">>>>)
       [] e.op = "mnprofile" ->
            \* up to normalisation: differences of log-density between grid points
            LET J == Keep(n, e.excl) IN
            Check(st, <<<<\A k \in 1..Len(e.i) : FPClose(FPSub(e.v[k], e.v[1]), FPSub(FPLn(Profile(d, J, e.i[k])), FPLn(Profile(d, J, e.i[1]))), E_(-6), E_(-5)),
                          "excluding components does not profile over exactly these components">>>>)
       [] e.op = "mndraw" ->
            \* counts of draws per grid cell (e.cnt aligned with d.y)
            LET N == FPInt(e.n) IN
            Check(st, <<<<e.inside, "a draw lies outside the cells of the grid">>,
                        <<\A j \in 1..Len(d.y) : d.y[j].v[1] = 0 => e.cnt[j] = 0, "a draw falls into a cell of vanishing probability">>,
                        <<\A j \in 1..Len(d.y) :
                            LET p == FPDiv(d.y[j].v, MVTot(d)) IN
                            FPClose(FPRat(e.cnt[j], e.n), p, FPZero, FPAdd(FPMul(FPInt(6), FPSqrt(FPDiv(p, N))), FPDiv(FPInt(3), N))), "the draws do not follow the cell probabilities">>>>)

New(st, e) ==
  LET d == e.d IN
  IF d.k = "mvn" THEN
     IF e.raised # "" THEN Bad(st, "valid arguments were refused")
     ELSE Ok([st EXCEPT !.d = [k |-> "mvn", mu |-> d.mu, cov |-> StatedCov(d)]])
  ELSE IF d.k \in {"mvnum", "opaque"} THEN
     IF e.raised # "" THEN Bad(st, "valid arguments were refused") ELSE Ok([st EXCEPT !.d = d])
  ELSE Check([st EXCEPT !.d = d], <<
     <<ValidArgs(d) \/ e.raised = "ValueError", "invalid arguments were accepted">>,
     <<~ValidArgs(d) \/ e.raised = "", "valid arguments were refused">>>>)

Step(st, e) ==
  IF e.op = "new" THEN New(st, e)
  ELSE IF e.op = "exception" THEN Bad(st, "the implementation raised " \o e.type \o ": " \o e.msg)
  ELSE LET d == st.d IN
  CASE e.op = "central" -> Check(st, <<<<DCentralOk(d, e.v), "the central value is not the stated location">>, <<e.v2 = e.v, "get_central differs from the central value">>>>)
    [] e.op = "support" ->
         Check([st EXCEPT !.lo = e.lo, !.hi = e.hi, !.soft = e.soft], <<
           <<Num(e.lo) /\ Num(e.hi) /\ FPLeq(e.lo, e.hi), "the support is not an interval">>,
           <<FPLeq(e.lo, e.c) /\ FPLeq(e.c, e.hi), "the central value lies outside the support">>,
           <<d.k \in {"delta", "duniform"} \/ FPClose(FPSub(Prob(d, e.hi, e.cdfhi), Prob(d, e.lo, e.cdflo)), FPOne, FPZero, <<200000000, -14>>), "the support does not hold the probability">>>>)
    [] e.op = "logpdf" ->
         Check(st, <<
           <<IndexClose(e.v, e.vs, GClose), "array and single evaluation of the log-density differ">>,
           <<d.k = "opaque" \/ \A j \in 1..Len(e.x) : LClose(DLogpdf(d, e.x[j]), e.v[j]), "the log-density differs from that of the stated distribution">>>>)
    [] e.op = "pdf" -> Check(st, <<<<\A j \in 1..Len(e.v) : FPClose(FPExp(e.lp[j]), e.v[j], E_(-5), E_(-30)), "density and log-density disagree">>>>)
    [] e.op = "cdf" ->
         Check(st, <<
           <<d.k = "opaque" \/ \A j \in 1..Len(e.x) : PClose(d, DCdf(d, e.x[j]), e.v[j]), "the cumulative differs from that of the stated distribution">>,
           <<\A j \in 2..Len(e.x) : FPLeq(e.v[j - 1], FPAdd(e.v[j], E_(-9))), "the cumulative decreases">>>>)
    [] e.op = "panel" -> Check(st, <<<<PClose(d, Boole(e), FPSub(e.c1, e.c0)), "the density does not integrate to the difference of the cumulative">>>>)
    [] e.op = "ppf" ->
         Check(st, <<
           <<d.k = "opaque" \/ \A j \in 1..Len(e.p) : PClose(d, DCdf(d, e.x[j]), e.p[j]), "a percentile does not have the stated cumulative">>,
           <<\A j \in 1..Len(e.p) : FPClose(e.back[j], e.p[j], FPZero, E_(-6)), "percentiles do not invert the cumulative">>>>)
    [] e.op = "delta" ->
         Check(st, <<
           <<FPClose(e.at0, FPZero, FPZero, E_(-9)), "the relative log-density does not vanish at the central value">>,
           <<\A j \in 1..Len(e.v) : FPClose(e.v[j], FPSub(e.lp[j], e.lpc), E_(-6), E_(-6)), "the relative log-density is not relative to the central value">>>>)
    [] e.op = "err" -> ErrCheck(st, e)
    [] e.op = "draw" -> DrawCheck(st, e)
    [] e.op = "limit" -> Check(st, <<<<FPClose(e.cdf, e.cl, FPZero, IF d.k = "opaque" THEN E_(-5) ELSE E_(-6)), "the stated confidence does not lie below the limit">>,
                                     <<d.k = "opaque" \/ FPClose(DCdf(d, e.limit), e.cl, FPZero, <<200000000, -14>>), "the distribution does not hold the stated confidence below the limit">>>>)
    [] e.op = "same" -> Check(st, <<<<IndexClose(e.a, e.b, LAMBDA x, y : FPClose(x, y, <<200000000, -10>>, e.abs)), "equivalent parametrisations of a distribution disagree">>>>)
    [] e.op = "moments" -> Check(st, <<<<FPClose(e.mean, e.emean, FPZero, e.tolm), "the mean of a density estimate is not that of its data">>,
                                       <<FPClose(e.sd, e.esd, <<600000000, -10>>, FPZero), "the width of a density estimate is not that of its data and kernel">>>>)
    [] e.op \in {"mvattr", "mvlogpdf", "mvreduce", "mvdraw"} /\ d.k = "mvn" -> MVCheck(st, e)
    [] e.op \in {"mncentral", "mnlogpdf", "mnprofile", "mndraw"} /\ d.k = "mvnum" -> MNCheck(st, e)

VARIABLES t, i, st, err
TraceInit == t \in 1..Len(Traces) /\ i = 1 /\ st = [d |-> [k |-> "none"], lo |-> FPZero, hi |-> FPZero, soft |-> FALSE] /\ err = ""
TraceNext == /\ err = "" /\ i <= Len(Traces[t].ev)
             /\ LET r == Step(st, Traces[t].ev[i]) IN st' = r.st /\ err' = r.err
             /\ i' = i + 1 /\ t' = t
TraceReport == /\ (err # "" => PrintT(<<"REJECT", t, i - 1, err>>))
               /\ ((err = "" /\ i > Len(Traces[t].ev)) => PrintT(<<"ACCEPT", t>>))
============================================================================
