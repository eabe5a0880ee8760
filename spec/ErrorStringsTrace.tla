------------------------ MODULE ErrorStringsTrace ------------------------
(* Judges how the real parser read strings and dictionaries.              *)
EXTENDS ErrorStrings, TLC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.VERIF_TRACE)
Tol == E_(-8)
Cl(a, b) == FPClose(a, b, Tol, FPZero)
Ok(st) == [st |-> st, err |-> ""]
Bad(st, m) == [st |-> st, err |-> m]
Check(st, conds) ==
  LET F == {k \in 1..Len(conds) : ~conds[k][1]} IN
  IF F = {} THEN Ok(st) ELSE Bad(st, conds[CHOOSE k \in F : \A m \in F : k <= m][2])
Count(S, x, cl(_, _)) == Len(SelectSeq(S, LAMBDA y : cl(x, y)))
Match(exp, obs, cl(_, _)) ==
  /\ Len(exp) = Len(obs)
  /\ \A i \in 1..Len(exp) : Count(exp, exp[i], cl) = Count(obs, exp[i], cl)

\* the list of distributions a meaning stands for
Dists(m) ==
  CASE m.k = "delta" -> <<[k |-> "delta", m |-> m.c]>>
    [] m.k = "limit" -> <<[k |-> "limit", limit |-> m.limit, cl |-> m.cl]>>
    [] m.k = "range" -> <<[k |-> "uniform", m |-> FPMul(FPHalf, FPAdd(m.lo, m.hi)), h |-> FPMul(FPHalf, FPSub(m.hi, m.lo))]>>
    [] m.k = "lognormal" -> <<[k |-> "lognormal", m |-> m.c, f |-> m.f]>>
    [] m.k = "pm" -> [j \in 1..Len(m.errs) |-> IF m.errs[j].sym THEN [k |-> "normal", m |-> m.c, s |-> m.errs[j].r]
                                             ELSE [k |-> "asym", m |-> m.c, r |-> m.errs[j].r, l |-> m.errs[j].l]]
SameDist(a, b) ==
  IF a.k # b.k THEN FALSE
  ELSE IF a.k = "uniform" THEN FPClose(a.m, b.m, Tol, FPMul(Tol, a.h)) /\ FPClose(a.h, b.h, Tol, FPMul(Tol, FPAbs(a.m)))
  ELSE \A f \in DOMAIN a \ {"k"} : f \in DOMAIN b /\ Cl(a[f], b[f])
SameErr(a, b) == Cl(a.r, b.r) /\ Cl(a.l, b.l)
RECURSIVE Quad(_, _)
Quad(errs, j) == IF j > Len(errs) THEN FPZero ELSE FPAdd(FPSq(errs[j].r), Quad(errs, j + 1))
AllSym(m) == \A j \in 1..Len(m.errs) : m.errs[j].sym
Sel(errs, b) == SelectSeq(errs, LAMBDA x : x.sym = b)

Step(st, e) ==
  CASE e.op = "exception" -> Bad(st, "the implementation raised " \o e.type \o ": " \o e.msg)
    [] e.op = "str" ->
       LET m == Parse(e.s) IN
       IF m.k = "any" THEN Ok(st)
       ELSE IF m.k = "reject" THEN Check(st, <<<<e.raised # "", "a string that is not in the notation was accepted">>>>)
       ELSE IF e.raised # "" THEN Check(st, <<<<~e.canon, "a string in the notation was rejected">>>>)
       ELSE Check(st, <<<<Match(Dists(m), e.ds, SameDist), "a string was read as something else than it states">>>>)
    [] e.op = "set" ->
       LET m == Parse(e.s) IN
       IF m.k = "any" THEN Ok(st)
       ELSE IF m.k = "reject" THEN Check(st, <<<<e.raised # "", "a constraint not in the notation was accepted">>>>)
       ELSE IF e.raised # "" THEN Check(st, <<<<~e.canon, "a constraint in the notation was rejected">>>>)
       ELSE Check(st, <<
         <<m.k \in {"range", "limit"} \/ FPClose(e.c, m.c, Tol, FPZero), "the central value is not the one written">>,
         <<m.k # "pm" \/ ~AllSym(m) \/ (FPClose(e.r, FPSqrt(Quad(m.errs, 1)), E_(-7), FPZero) /\ FPClose(e.l, e.r, E_(-7), FPZero)),
           "the total error is not the quadratic sum of the errors written">>,
         <<m.k # "pm" \/ Len(m.errs) # 1 \/ AllSym(m) \/ (FPClose(e.r, m.errs[1].r, E_(-6), FPZero) /\ FPClose(e.l, m.errs[1].l, E_(-6), FPZero)),
           "the asymmetric errors are not the ones written">>,
         <<m.k # "range" \/ (FPClose(FPSub(e.c, e.slo), FPMul(FPHalf, FPSub(m.hi, m.lo)), E_(-7), FPMul(E_(-8), FPAdd(FPAbs(m.hi), FPAbs(m.lo))))
                             /\ FPClose(e.slo, m.lo, E_(-7), FPMul(E_(-7), FPAbs(m.hi))) /\ FPClose(e.shi, m.hi, E_(-7), FPMul(E_(-7), FPAbs(m.lo)))),
           "the range is not the one written">>,
         <<m.k # "delta" \/ (e.r = FPZero /\ e.l = FPZero), "a number without errors has errors">>>>)
    [] e.op = "efs" ->
       LET m == Parse(e.s) IN
       IF m.k # "pm" THEN Check(st, <<<<e.raised # "" \/ m.k = "any", "errors were read from a string that states none">>>>)
       ELSE IF e.raised # "" THEN Check(st, <<<<~e.canon, "errors of a string in the notation were refused">>>>)
       ELSE Check(st, <<
         <<Cl(e.c, m.c) /\ Cl(e.c2, m.c), "the central value is not the one written">>,
         <<Match(Sel(m.errs, TRUE), e.sym, SameErr) /\ Match(Sel(m.errs, FALSE), e.asym, SameErr), "the errors are not the ones written">>,
         <<Match(Sel(m.errs, TRUE), e.sym2, SameErr) /\ Match(Sel(m.errs, FALSE), e.asym2, SameErr), "the errors of the resulting constraints are not the ones written">>>>)
    [] e.op = "efc" ->      \* component e.num of a multivariate constraint
       Check(st, <<<<Cl(e.c, e.mu[e.num]) /\ e.asym = <<>> /\ Len(e.sym) = 1 /\ FPClose(e.sym[1], e.sd[e.num], E_(-7), FPZero),
                     "the errors of a correlated constraint are not those of its component">>>>)
    [] e.op = "dict" ->
       IF e.bad THEN Check(st, <<<<e.raised # "", "an invalid specification was accepted">>>>)
       ELSE Check(st, <<<<e.raised = "", "a constraint dictionary was rejected">>,
                        <<e.raised # "" \/ Match(e.d, e.ds, SameDist), "a constraint dictionary was read as something else">>>>)

VARIABLES t, i, st, err
TraceInit == t \in 1..Len(Traces) /\ i = 1 /\ st = 0 /\ err = ""
TraceNext == /\ err = "" /\ i <= Len(Traces[t].ev)
             /\ LET r == Step(st, Traces[t].ev[i]) IN st' = r.st /\ err' = r.err
             /\ i' = i + 1 /\ t' = t
TraceReport == /\ (err # "" => PrintT(<<"REJECT", t, i - 1, err>>))
               /\ ((err = "" /\ i > Len(Traces[t].ev)) => PrintT(<<"ACCEPT", t>>))
=============================================================================
