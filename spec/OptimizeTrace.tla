------------------------- MODULE OptimizeTrace -------------------------
(* Judges runs of the robust minimiser with scripted and real methods.     *)
EXTENDS Integers, Sequences, FP, TLC, Json, IOUtils
INSTANCE Optimize WITH Less <- FPLess
Traces == ndJsonDeserialize(IOEnv.VERIF_TRACE)
Ok(s) == [st |-> s, err |-> ""]
Bad(s, m) == [st |-> s, err |-> m]
Check(s, conds) ==
  LET F == {k \in 1..Len(conds) : ~conds[k][1]} IN
  IF F = {} THEN Ok(s) ELSE Bad(s, conds[CHOOSE k \in F : \A m \in F : k <= m][2])
InitSt == [p |-> Start(<<>>, FPZero), methods |-> <<>>, tries |-> 0, sign |-> 1, opts |-> "", args |-> ""]
Cl(a, b) == FPClose(a, b, E_(-7), E_(-7))
\* the value of the function handed to the user: d + sum of a_k (x_k - c_k)^2 + b (x_k - c_k)^4
Quad(q, x) == FPAdd(q.d, FPSum([k \in 1..Len(x) |-> LET y == FPSq(FPSub(x[k], q.c[k])) IN FPAdd(FPMul(q.a[k], y), FPMul(q.b, FPSq(y)))]))
Step(s, e) ==
  CASE e.op = "exception" -> Bad(s, "the implementation raised " \o e.type \o ": " \o e.msg)
    [] e.op = "start" -> Ok([p |-> Start(e.x, e.v), methods |-> e.methods, tries |-> e.tries, sign |-> e.sign, opts |-> e.opts, args |-> e.args])
    [] e.op = "try" ->
         \* e.v: what the method sees (for a maximisation, minus the function)
         Check([s EXCEPT !.p = Try(s.p, Outcome(e.ok, e.x, e.v))],
               <<<<~Ended(s.p, s.methods, s.tries), "a method is tried after the end">>,
                 <<e.m = Method(s.methods, s.p.n), "the methods are not tried in order">>,
                 <<e.x0 = s.p.x, "a try does not start at the best point known">>,
                 <<e.opts = s.opts, "options are not passed on">>,
                 <<e.args = s.args, "arguments are not passed on">>,
                 <<e.f0 = s.p.v \/ s.p.n > 0, "the function minimised is not the one given">>>>)
    [] e.op = "result" ->
         LET r == s.p.res IN
         Check(s, <<<<Ended(s.p, s.methods, s.tries), "gave up too early">>,
                    <<e.ok = r.ok, "success is not reported as it is">>,
                    <<e.x = r.x /\ e.v = (IF s.sign = 1 THEN r.v ELSE FPNeg(r.v)), "the result is not that of the last try">>,
                    <<e.x0same, "the starting point was modified">>>>)
    [] e.op = "real" ->
         LET down == e.sign = 1 IN
         Check(s, <<<<Cl(e.v, Quad(e.q, e.x)), "point and value of the result do not belong together">>,
                    <<~e.ok \/ (IF down THEN FPLeq(e.v, FPAdd(Quad(e.q, e.x0), E_(-9))) ELSE FPLeq(FPSub(Quad(e.q, e.x0), E_(-9)), e.v)),
                      "the result of a successful optimisation is worse than the starting point">>,
                    <<~e.ok \/ \A k \in 1..Len(e.x) : FPLeq(FPAbs(FPSub(e.x[k], e.q.c[k])), FPMul(IF e.q.b = FPZero THEN E_(-2) ELSE FPMul(FPInt(2), E_(-1)), FPAdd(FPOne, FPAbs(e.q.c[k])))),
                      "a successful optimisation of a parabola does not find its extremum">>,
                    <<e.x0same, "the starting point was modified">>>>)
    [] e.op = "twin" ->
         Check(s, <<<<e.okmin = e.okmax /\ e.xmin = e.xmax /\ e.vmin = FPNeg(e.vmax), "maximising is not minimising the negative">>>>)
    [] e.op = "unbounded" -> Check(s, <<<<~e.ok, "success is reported for a function without extremum">>>>)

VARIABLES t, i, st, err
TraceInit == t \in 1..Len(Traces) /\ i = 1 /\ st = InitSt /\ err = ""
TraceNext == /\ err = "" /\ i <= Len(Traces[t].ev)
             /\ LET r == Step(st, Traces[t].ev[i]) IN st' = r.st /\ err' = r.err
             /\ i' = i + 1 /\ t' = t
TraceReport == /\ (err # "" => PrintT(<<"REJECT", t, i - 1, err>>))
               /\ ((err = "" /\ i > Len(Traces[t].ev)) => PrintT(<<"ACCEPT", t>>))
===========================================================================
