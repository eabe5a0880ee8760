---------------------------- MODULE CombineTrace ----------------------------
(* Judges convolutions and combinations recorded from the library.          *)
EXTENDS Combine, FiniteSets, TLC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.VERIF_TRACE)
Ok(st) == [st |-> st, err |-> ""]
Bad(st, m) == [st |-> st, err |-> m]
Check(st, conds) ==
  LET F == {k \in 1..Len(conds) : ~conds[k][1]} IN
  IF F = {} THEN Ok(st) ELSE Bad(st, conds[CHOOSE k \in F : \A m \in F : k <= m][2])
Put(st, s, c) == [x \in DOMAIN st \cup {s} |-> IF x = s THEN c ELSE st[x]]
C6(a, b) == FPClose(a, b, E_(-6), <<100000000, -17>>)
\* width of the result, to scale tolerances of the numerical route
W(v) == FPSqrt(v.var)

Views(st, e, v, what) ==
  LET mtol == IF v.kind = "other" THEN FPMul(<<200000000, -10>>, W(v)) ELSE FPMul(E_(-6), FPAdd(FPAbs(v.c), W(v))) IN
  Check(Put(st, e.out, v), <<
    <<v.kind = "other" \/ e.kind = v.kind, what \o " of normal or fixed distributions is not of the same kind">>,
    <<what # "convolution" \/ FPClose(e.c, v.c, E_(-7), FPMul(E_(-7), W(v))), "a convolution does not keep the central value">>,
    <<what # "combination" \/ v.kind = "other" \/ FPClose(e.c, v.c, E_(-6), FPMul(E_(-6), W(v))), "a combination is not the weighted mean">>,
    <<v.kind # "normal" \/ C6(FPSq(e.sd), v.var), "the variance of a " \o what \o " is wrong">>,
    <<v.kind = "normal" \/ v.kind = "delta" \/ FPClose(e.norm, FPOne, FPZero, <<200000000, -10>>), "the result of a " \o what \o " is not normalised">>,
    <<what # "convolution" \/ v.kind # "other" \/ FPClose(e.mean, FPAdd(v.c, v.off), FPZero, mtol), "the mean of a convolution is not the sum of the shifts">>,
    <<what # "convolution" \/ v.kind # "other" \/ FPClose(e.var, v.var, <<100000000, -10>>, FPZero), "the variance of a convolution is not the sum of the variances">>,
    <<what # "convolution" \/ v.kind # "other" \/ ~UniNormal(v) \/ ~HasNormal(v) \/
        \A j \in 1..Len(e.x) : FPClose(FPExp(e.lp[j]), UniNormalPdf(v, e.x[j]), <<100000000, -10>>, FPDiv(<<200000000, -11>>, W(v))),
        "the density of a convolution is not the convolution of the densities">>,
    <<what # "combination" \/ v.kind # "other" \/
        \A j \in 2..Len(e.x) : FPClose(FPSub(e.lp[j], e.lp[1]), FPSub(CombLn(v, e.x[j]), CombLn(v, e.x[1])), <<100000000, -10>>, <<400000000, -10>>),
        "the density of a combination is not proportional to the product of the densities">>,
    <<e.same, "an input distribution was changed">>>>)

\* ---- multivariate normal ----------------------------------------------------
Dom(n) == 1..n
MAdd(A, B) == [a \in 1..Len(A) |-> [b \in 1..Len(A) |-> FPAdd(A[a][b], B[a][b])]]
RECURSIVE MSum(_)
MSum(Ms) == IF Len(Ms) = 1 THEN Ms[1] ELSE MAdd(Ms[1], MSum(Tail(Ms)))
MatClose(A, B, tol) ==
  Len(A) = Len(B) /\ \A a \in 1..Len(A) : Len(A[a]) = Len(B[a]) /\
    \A b \in 1..Len(A) : FPClose(A[a][b], B[a][b], tol, FPMul(tol, FPSqrt(FPMul(FPAbs(A[a][a]), FPAbs(B[b][b])))))
MConvRaises(vs, mode) == IF Len(vs) > 1 /\ mode = "same" /\ ~AllEq(Map(vs, LAMBDA v : v.mu)) THEN "AssertionError" ELSE ""
MConv(vs, mode) ==
  [mv |-> TRUE, cov |-> MSum(Map(vs, LAMBDA v : v.cov)),
   mu |-> IF mode = "same" \/ Len(vs) = 1 THEN vs[1].mu ELSE [j \in 1..Len(vs[1].mu) |-> SumF(Map(vs, LAMBDA v : v.mu[j]))],
   parts |-> <<>>]
RECURSIVE MParts(_)
MParts(vs) == IF Len(vs) = 0 THEN <<>> ELSE vs[1].parts \o MParts(Tail(vs))
MLn(p, x) == MVDelta(p.mu, p.cov, Seq1(Len(p.mu)), x)
MCombLn(ps, x) == SumF(Map(ps, LAMBDA p : MLn(p, x)))
\* spread of the components, to set the scale of tolerances
MWid(v, j) == FPSqrt(v.cov[j][j])
RECURSIVE PSum(_, _)
PSum(ps, i) == IF i > Len(ps) THEN FPZero ELSE FPAdd(ps[i], PSum(ps, i + 1))

Step(st, e) ==
  IF e.op = "leaf" THEN Ok(Put(st, e.id, Leaf(e.d)))
  ELSE IF e.op = "mleaf" THEN Ok(Put(st, e.id, [mv |-> TRUE, mu |-> e.mu, cov |-> e.cov, parts |-> <<[mu |-> e.mu, cov |-> e.cov]>>]))
  ELSE IF e.op = "exception" THEN Bad(st, "the implementation raised " \o e.type \o ": " \o e.msg)
  ELSE IF e.op = "dump" THEN Check(st, <<<<e.same, "an input distribution was changed">>>>)
  ELSE
  LET vs == [j \in 1..Len(e.in) |-> st[e.in[j]]] IN
  CASE e.op = "conv" ->
         LET r == ConvRaises(vs, e.mode) IN
         IF r # "" THEN Check(st, <<<<e.raised = r, "an impossible convolution was accepted">>>>)
         ELSE IF e.raised # "" THEN Bad(st, "a convolution was refused: " \o e.raised)
         ELSE Views(st, e, Conv(vs, e.mode), "convolution")
    [] e.op = "comb" ->
         LET r == CombRaises(vs) IN
         IF r # "" THEN Check(st, <<<<e.raised = r, "an impossible combination was accepted">>>>)
         ELSE IF e.raised # "" THEN Bad(st, "a combination was refused: " \o e.raised)
         ELSE Views(st, e, Comb(vs), "combination")
    [] e.op = "mconv" ->
         LET r == MConvRaises(vs, e.mode) IN
         IF r # "" THEN Check(st, <<<<e.raised = r, "an impossible convolution was accepted">>>>)
         ELSE IF e.raised # "" THEN Bad(st, "a convolution was refused: " \o e.raised)
         ELSE LET v == MConv(vs, e.mode) IN
              Check(Put(st, e.out, [v EXCEPT !.parts = <<[mu |-> v.mu, cov |-> v.cov]>>]), <<
                <<\A j \in 1..Len(v.mu) : FPClose(e.c[j], v.mu[j], E_(-7), FPMul(E_(-7), MWid(v, j))), "a convolution does not keep the central values">>,
                <<MatClose(v.cov, e.cov, E_(-6)), "the covariance of a convolution is not the sum of the covariances">>,
                <<e.same, "an input distribution was changed">>>>)
    [] e.op = "mcomb" ->
         IF e.raised # "" THEN Bad(st, "a combination was refused: " \o e.raised)
         ELSE LET ps == MParts(vs)
                  R == [mu |-> e.c, cov |-> e.cov]
              IN Check(Put(st, e.out, [mv |-> TRUE, mu |-> e.c, cov |-> e.cov, parts |-> <<R>>]), <<
                   <<\A j \in 1..Len(e.x) :
                       LET a == FPSub(MLn(R, e.x[j]), MLn(R, e.x[1]))
                           b == FPSub(MCombLn(ps, e.x[j]), MCombLn(ps, e.x[1]))
                       IN FPClose(a, b, <<200000000, -13>>, <<200000000, -12>>),
                     "a combination is not the inverse-variance weighted mean">>,
                   <<e.same, "an input distribution was changed">>>>)
    \* numerical multivariate: moments add (all moments measured on grids)
    [] e.op = "nconv" ->
         IF e.raised # "" THEN Bad(st, "a convolution was refused: " \o e.raised)
         ELSE Check(st, <<
           <<\A j \in 1..Len(e.c) : FPClose(e.c[j], e.ec[j], E_(-6), FPMul(E_(-6), FPSqrt(e.var[j]))), "a convolution does not keep the central values">>,
           <<\A j \in 1..Len(e.c) : FPClose(FPSub(e.mean[j], e.c[j]), FPSub(e.mean0[j], e.c0[j]), FPZero, FPMul(<<200000000, -10>>, FPSqrt(e.var[j]))), "the mean of a convolution is not the sum of the shifts">>,
           <<\A j \in 1..Len(e.c) : FPClose(e.var[j], FPAdd(e.var0[j], e.varg[j]), <<300000000, -10>>, FPZero), "the variance of a convolution is not the sum of the variances">>,
           <<FPClose(e.cv, FPAdd(e.cv0, e.cvg), FPZero, FPMul(<<300000000, -10>>, FPSqrt(FPMul(e.var[1], e.var[2])))), "the covariance of a convolution is not the sum of the covariances">>>>)
    [] e.op = "nconvbad" -> Check(st, <<<<e.raised = "NotImplementedError", "an unsupported convolution was accepted">>>>)
    [] e.op = "ncomb" ->
         IF e.raised # "" THEN Bad(st, "a combination was refused: " \o e.raised)
         ELSE Check(st, <<
           <<\A j \in 2..Len(e.lp) : FPClose(FPSub(e.lp[j], e.lp[1]), FPSub(PSum(e.parts[j], 1), PSum(e.parts[1], 1)), <<200000000, -10>>, <<600000000, -10>>),
             "the density of a combination is not proportional to the product of the densities">>,
           <<FPClose(e.norm, FPOne, FPZero, <<200000000, -10>>), "the result of a combination is not normalised">>>>)

VARIABLES t, i, st, err
TraceInit == t \in 1..Len(Traces) /\ i = 1 /\ st = [x \in {} |-> 0] /\ err = ""
TraceNext == /\ err = "" /\ i <= Len(Traces[t].ev)
             /\ LET r == Step(st, Traces[t].ev[i]) IN st' = r.st /\ err' = r.err
             /\ i' = i + 1 /\ t' = t
TraceReport == /\ (err # "" => PrintT(<<"REJECT", t, i - 1, err>>))
               /\ ((err = "" /\ i > Len(Traces[t].ev)) => PrintT(<<"ACCEPT", t>>))
=============================================================================
