------------------------- MODULE FreshnessTrace -------------------------
(* Judges histories of evaluations with shared objects.  "fresh" events    *)
(* hold what new objects gave for stated arguments; every evaluation must  *)
(* give bit for bit what its current arguments give.  The test observables *)
(* are linear, so that their values follow from the specification too.     *)
EXTENDS Freshness, FP, TLC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.VERIF_TRACE)
Ok(st) == [st |-> st, err |-> ""]
Bad(st, m) == [st |-> st, err |-> m]
Check(st, conds) ==
  LET F == {k \in 1..Len(conds) : ~conds[k][1]} IN
  IF F = {} THEN Ok(st) ELSE Bad(st, conds[CHOOSE k \in F : \A m \in F : k <= m][2])
None == [x \in {} |-> 0]
Put(f, s, c) == [x \in DOMAIN f \cup {s} |-> IF x = s THEN c ELSE f[x]]
Del(f, s) == [x \in DOMAIN f \ {s} |-> f[x]]
InitSt == [pt |-> None, co |-> None, toy |-> None, obj |-> None, fresh |-> None, meas |-> None]
Key(a, obs) == <<a, obs>>
ArgsOf(st, o, p) == Args(st.obj[o], p, st.pt[p].ckm)
\* value of a linear test observable
Toy(st, t, o, p) ==
  LET d == st.toy[t] IN
  FPAdd(FPAdd(FPInt(d.c0), FPSum([k \in 1..Len(d.pc) |-> FPMul(FPInt(d.pc[k]), st.pt[p].v[k])])),
        FPMul(FPInt(d.wk), st.co[ToString(st.obj[o].c)]))
LogL(st, o, p) ==
  LET one(m) == FPSum([k \in 1..Len(m) |->
                  LET z == FPDiv(FPSub(Toy(st, m[k].t, o, p), FPInt(m[k].mu)), FPInt(m[k].s)) IN
                  FPNeg(FPAdd(FPMul(FPHalf, FPSq(z)), FPAdd(FPLn(FPInt(m[k].s)), FPMul(FPHalf, FPLn(FPMul(FPTwo, FPPi))))))])
  IN FPSum([k \in 1..Len(st.meas) |-> one(st.meas[k])])
Cl(a, b) == FPClose(a, b, E_(-7), E_(-6))
Values(st, e) ==
  \A k \in 1..Len(e.vals) :
     LET key == Key(ArgsOf(st, e.o, e.p), e.vals[k].obs) IN
     key \in DOMAIN st.fresh /\ st.fresh[key] = e.vals[k].val
Toys(st, e) ==
  \A k \in 1..Len(e.vals) : e.vals[k].obs \in DOMAIN st.toy => Cl(e.vals[k].num, Toy(st, e.vals[k].obs, e.o, e.p))
Step(st, e) ==
  CASE e.op = "exception" -> Bad(st, "the implementation raised " \o e.type \o ": " \o e.msg)
    [] e.op = "point" -> Ok([st EXCEPT !.pt = Put(@, e.p, [ckm |-> e.ckm, v |-> e.v])])
    [] e.op = "content" -> Ok([st EXCEPT !.co = Put(@, ToString(e.c), e.x)])
    [] e.op = "toy" -> Ok([st EXCEPT !.toy = Put(@, e.t, [c0 |-> e.c0, pc |-> e.pc, wk |-> e.wk])])
    [] e.op = "meas" -> Ok([st EXCEPT !.meas = e.meas])
    [] e.op = "fresh" ->
         LET k == Key(<<e.c, e.q, e.ckm, e.p>>, e.obs) IN
         Check([st EXCEPT !.fresh = Put(@, k, e.val)],
               <<<<k \notin DOMAIN st.fresh \/ st.fresh[k] = e.val, "fresh evaluations of the same arguments differ">>>>)
    [] e.op = "new" -> Ok([st EXCEPT !.obj = Put(@, e.o, NewObj(e.kind, e.c))])
    [] e.op = "init" -> Ok([st EXCEPT !.obj = Put(@, e.o, Reinit(st.obj[e.o], e.c))])
    [] e.op = "opt" -> Ok([st EXCEPT !.obj = Put(@, e.o, SetQ(st.obj[e.o], e.q))])
    [] e.op = "ckmopt" -> Ok([st EXCEPT !.obj = Put(@, e.o, SetCkm(st.obj[e.o], e.ckm))])
    [] e.op = "eval" ->
         Check(st, <<<<Values(st, e), "an evaluation differs from a fresh one with the same arguments (" \o e.how \o ")">>,
                     <<Toys(st, e), "a prediction is not the function of the arguments it is evaluated with (" \o e.how \o ")">>>>)
    [] e.op = "ll" ->
         Check(st, <<<<Cl(e.val, LogL(st, e.o, e.p)), "the log-likelihood is not that of the current arguments and measurements">>>>)

VARIABLES t, i, st, err
TraceInit == t \in 1..Len(Traces) /\ i = 1 /\ st = InitSt /\ err = ""
TraceNext == /\ err = "" /\ i <= Len(Traces[t].ev)
             /\ LET r == Step(st, Traces[t].ev[i]) IN st' = r.st /\ err' = r.err
             /\ i' = i + 1 /\ t' = t
TraceReport == /\ (err # "" => PrintT(<<"REJECT", t, i - 1, err>>))
               /\ ((err = "" /\ i > Len(Traces[t].ev)) => PrintT(<<"ACCEPT", t>>))
===========================================================================
