------------------------- MODULE LikelihoodTrace -------------------------
(* Judges what likelihoods built on the real measurements return.          *)
EXTENDS Likelihood, TLC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.VERIF_TRACE)
Tol == E_(-7)
Ok(st) == [st |-> st, err |-> ""]
Bad(st, m) == [st |-> st, err |-> m]
Check(st, conds) ==
  LET F == {k \in 1..Len(conds) : ~conds[k][1]} IN
  IF F = {} THEN Ok(st) ELSE Bad(st, conds[CHOOSE k \in F : \A m \in F : k <= m][2])
\* state: the world, the definitions of the likelihoods, the predictions
InitSt == [w |-> EmptyW, L |-> [x \in {} |-> 0], pred |-> [x \in {} |-> 0]]
Put(f, s, c) == [x \in DOMAIN f \cup {s} |-> IF x = s THEN c ELSE f[x]]
Cl(a, b) == FPClose(a, b, Tol, E_(-6))
\* prediction of an observable at parameter values
Pred(d, par) == FPAdd(FPAdd(FPInt(d.c0), FPSum([k \in 1..Len(d.av) |-> FPInt(d.ac[k] * d.av[k])])),
                      FPSum([k \in 1..Len(d.pn) |-> FPMul(FPInt(d.pc[k]), par[d.pn[k]])]))
Step(st, e) ==
  CASE e.op = "exception" -> Bad(st, "the implementation raised " \o e.type \o ": " \o e.msg)
    [] e.op = "meas" -> Ok([st EXCEPT !.w = PutM(st.w, e.m, EmptyC, e.pseudo)])
    [] e.op = "add" -> Ok([st EXCEPT !.w.ms[e.m] = Add(@, e.ps, e.d)])
    [] e.op = "remove" -> Ok([st EXCEPT !.w.ms[e.m] = Remove(@, e.p)])
    [] e.op = "del" -> Ok([st EXCEPT !.w = DelM(st.w, e.m)])
    [] e.op = "par" -> Ok([st EXCEPT !.w.par = Add(@, e.ps, e.d)])
    [] e.op = "pred" -> Ok([st EXCEPT !.pred = Put(@, e.o, e.d)])
    [] e.op = "new" ->
       LET L == e.L
           fine == Constrained(st.w, L) IN
       IF ~fine THEN Check(st, <<<<e.raised # "", "a likelihood of an observable no selected measurement constrains was accepted">>>>)
       ELSE IF e.raised # "" THEN Bad(st, "a valid likelihood was refused: " \o e.raised)
       ELSE Ok([st EXCEPT !.L = Put(@, e.l, L)])
    [] e.op = "selected" ->
       LET S == Selected(st.w, st.L[e.l]) IN
       Check(st, <<<<Rng(e.names) = S, "the measurements used are not the selected ones">>,
                   <<Len(e.names) = Cardinality(S), "a measurement is used more than once">>>>)
    [] e.op = "nobs" ->
       Check(st, <<<<e.n = NObs(st.w, st.L[e.l], Rng(e.excl)), "the number of observations is not the number of measured observables">>>>)
    [] e.op = "pred_ll" ->
       Check(st, <<<<Cl(e.val, LogLik(st.w, st.L[e.l], Rng(e.excl), e.x, e.delta)),
                     "the log-likelihood of predictions is not the sum over the selected measurements">>>>)
    [] e.op = "par_ll" ->
       LET L == st.L[e.l]
           x == [o \in Rng(L.obs) |-> Pred(st.pred[o], e.par)]
       IN Check(st, <<
            <<\A o \in Rng(L.obs) : o \in DOMAIN e.preds /\ Cl(e.preds[o], x[o]), "the predictions of the likelihood are not those of its observables">>,
            <<Cl(e.exp, LogLik(st.w, L, Rng(e.excl), x, e.delta)), "the log-likelihood is not the sum over the selected measurements">>,
            <<~e.full \/ Cl(e.prior, Prior(st.w, L, e.par, e.delta)), "the prior is not that of exactly the fit parameters">>,
            <<~e.full \/ Cl(e.total, FPAdd(LogLik(st.w, L, Rng(e.excl), x, e.delta), Prior(st.w, L, e.par, e.delta))),
              "the total log-likelihood is not the sum of prior and measurements">>>>)

VARIABLES t, i, st, err
TraceInit == t \in 1..Len(Traces) /\ i = 1 /\ st = InitSt /\ err = ""
TraceNext == /\ err = "" /\ i <= Len(Traces[t].ev)
             /\ LET r == Step(st, Traces[t].ev[i]) IN st' = r.st /\ err' = r.err
             /\ i' = i + 1 /\ t' = t
TraceReport == /\ (err # "" => PrintT(<<"REJECT", t, i - 1, err>>))
               /\ ((err = "" /\ i > Len(Traces[t].ev)) => PrintT(<<"ACCEPT", t>>))
===========================================================================
