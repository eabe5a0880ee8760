------------------------- MODULE ConstraintsTrace -------------------------
(***************************************************************************)
(* Judges histories recorded from the real containers.  The state maps     *)
(* slots (several containers, e.g. an original and its copy) to the        *)
(* abstract container of Constraints.tla.                                  *)
(***************************************************************************)
EXTENDS SaveLoad, TLC, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.VERIF_TRACE)
Tol == <<200000000, -14>>      \* 2e-6 relative
AbsTol == <<200000000, -14>>   \* 2e-6 absolute
TCloseA(a, b) == FPClose(a, b, Tol, AbsTol)
LTol == <<100000000, -12>>     \* 1e-4: the library fixes errors numerically
TCloseL(a, b) == FPClose(a, b, LTol, AbsTol)

InitSt == [s \in {} |-> EmptyC]
Put(st, s, c) == [x \in DOMAIN st \cup {s} |-> IF x = s THEN c ELSE st[x]]

Ok(st) == [st |-> st, err |-> ""]
Bad(st, m) == [st |-> st, err |-> m]
Check(st, conds) ==      \* conds: sequence of <<bool, message>>; first failure is named
  LET F == {k \in 1..Len(conds) : ~conds[k][1]} IN
  IF F = {} THEN Ok(st) ELSE Bad(st, conds[CHOOSE k \in F : \A m \in F : k <= m][2])

Match(exp, obs, cl(_, _)) ==
  /\ Len(exp) = Len(obs)
  /\ \A i \in 1..Len(exp) : \E j \in 1..Len(obs) : cl(exp[i], obs[j])
  /\ \A j \in 1..Len(obs) : \E i \in 1..Len(exp) : cl(exp[i], obs[j])

SeqOfSet(S) == CHOOSE s \in [1..Cardinality(S) -> S] : Rng(s) = S

LogpCheck(st, c, e) ==
  LET excl == Rng(e.excl)
      K == Contributing(c, excl)
      ks == SelectSeq([k \in 1..Len(c.cons) |-> k], LAMBDA k : k \in K)
      exp == [n \in 1..Len(ks) |-> LogpOf(c, ks[n], excl, e.x, e.delta)]
  IN Check(st, <<
       <<Len(e.vals) = Len(exp), "number of contributing constraints differs from the active ones">>,
       <<Match(exp, e.vals, TCloseA), "a log-probability term differs from the governing constraint's marginal">>,
       <<TCloseA(FPSum(exp), FPSum(e.vals)), "total log-probability differs from the sum over governing constraints">>>>)

RandomCheck(st, c, e) ==
  LET G == Governed(c)
      ok(p) == p \in DOMAIN e.draws
      N == e.n
  IN Check(st, <<
       <<DOMAIN e.draws = G, "random values are not given for exactly the governed parameters">>,
       <<\A p \in G : Len(e.draws[p]) = N, "number of random values differs from the requested size">>,
       <<\A p \in G : \A s \in 1..N : DrawPossible(DistOf(c, p), c.gov[p][2], e.draws[p][s]),
         "a random value is impossible under the governing constraint">>,
       <<\A p \in G : (N > 1 /\ DistOf(c, p).k # "delta") => Cardinality(Rng(e.draws[p])) > 1,
         "random values of one parameter are all identical">>,
       <<\A p, q \in G : (c.gov[p][1] = c.gov[q][1] /\ p # q) =>
            \A s \in 1..N : JointlyPossible(DistOf(c, p), c.gov[p][2], e.draws[p][s], c.gov[q][2], e.draws[q][s]),
         "correlated parameters were not drawn jointly">>,
       <<\A p, q \in G : (c.gov[p][1] # c.gov[q][1] /\ N >= 3 /\ DistOf(c, p).k = "normal" /\ DistOf(c, q).k = "normal") =>
            \E s \in 1..N : LET z1 == FPDiv(FPSub(e.draws[p][s], FPInt(DistOf(c, p).mu[1])), FPInt(DistOf(c, p).s))
                                z2 == FPDiv(FPSub(e.draws[q][s], FPInt(DistOf(c, q).mu[1])), FPInt(DistOf(c, q).s))
                            IN ~FPClose(z1, z2, E_(-7), E_(-7)),
         "independent parameters were drawn from the same random numbers">>>>)

StdCheck(st, c, e) ==
  LET G == {p \in Governed(c) : DistOf(c, p).k \in {"normal", "mvn", "uniform", "delta"}} IN
  Check(st, <<
    <<DOMAIN e.vals = Governed(c), "1D errors are not given for exactly the governed parameters">>,
    <<\A p \in G : FPClose(e.vals[p], SigmaOf(DistOf(c, p), c.gov[p][2]), <<350000000, -9>>, E_(-9)),
      "sampled 1D error is incompatible with the governing constraint">>>>)

\* the same content seen in two containers
PCl(a, b) == FPClose(a, b, E_(-7), E_(-10))
FunClose(f, g) == DOMAIN f = DOMAIN g /\ \A x \in DOMAIN f : Len(f[x]) = Len(g[x]) /\ \A k \in 1..Len(f[x]) : PCl(f[x][k], g[x][k])
PairCheck(st, c, d, e) ==
  Check(st, <<
    <<DOMAIN e.a.central = Governed(c), "the dumped container shows other parameters than it constrains">>,
    <<DOMAIN e.b.central = Governed(d), "the loaded container constrains other parameters">>,
    <<Governed(c) # Governed(d) \/ FunClose(e.a.central, e.b.central), "central values changed by saving and loading">>,
    <<Governed(c) # Governed(d) \/ DOMAIN e.a.errors = {} \/ FunClose(e.a.errors, e.b.errors), "errors changed by saving and loading">>,
    <<Governed(c) # Governed(d) \/ FunClose(e.a.single, e.b.single), "single log-probabilities changed by saving and loading">>,
    <<Governed(c) # Governed(d) \/ \A k \in 1..Len(e.a.total) : FPClose(e.a.total[k], e.b.total[k], E_(-7), E_(-7)),
      "total log-probability changed by saving and loading">>,
    <<e.a.meta = e.b.meta, "metadata changed by saving and loading">>>>)

Step(st, e) ==
  IF e.op = "new" THEN Ok(Put(st, e.c, EmptyC))
  ELSE IF e.op \in {"add", "remove", "copy", "all", "central", "central1", "logp", "single", "errors", "random", "std",
                    "dumpload", "loadon", "dumped", "pair"}
          /\ e.c \in DOMAIN st
  THEN LET c == st[e.c] IN
    CASE e.op = "add" -> Ok(Put(st, e.c, Add(c, e.ps, e.d)))
      [] e.op = "remove" -> Ok(Put(st, e.c, Remove(c, e.ps[1])))
      [] e.op = "copy" -> Ok(Put(st, e.to, c))
      [] e.op = "all" ->
           Check(st, <<<<Rng(e.names) = Governed(c), "listed parameters differ from the governed ones">>,
                       <<Len(e.names) = Cardinality(Governed(c)), "a parameter is listed twice">>>>)
      [] e.op = "central" ->
           Check(st, <<<<DOMAIN e.vals = Governed(c), "central values are not given for exactly the governed parameters">>,
                       <<\A p \in Governed(c) : TCloseA(e.vals[p], CentralOf(c, p)), "central value differs from the governing constraint's">>>>)
      [] e.op = "central1" ->
           IF e.p \in Governed(c)
           THEN Check(st, <<<<e.raised = "", "central value of a constrained parameter raised an error">>,
                            <<e.raised # "" \/ TCloseA(e.val, CentralOf(c, e.p)), "central value differs from the governing constraint's">>>>)
           ELSE Check(st, <<<<e.raised # "", "an unconstrained parameter has a central value">>>>)
      [] e.op = "logp" -> LogpCheck(st, c, e)
      [] e.op = "single" ->
           Check(st, <<<<e.p \in Governed(c), "log-probability reported for an unconstrained parameter">>,
                       <<e.p \notin Governed(c) \/ TCloseA(e.val, LogpSingle(c, e.p, e.x, e.delta)), "single log-probability differs from the governing constraint's marginal">>>>)
      [] e.op = "errors" ->
           Check(st, <<<<DOMAIN e.vals = Governed(c), "errors are not given for exactly the governed parameters">>,
                       <<\A p \in Governed(c) : TCloseL(e.vals[p][1], ErrRightOf(c, p)), "right error differs from the governing constraint's">>,
                       <<\A p \in Governed(c) : TCloseL(e.vals[p][2], ErrLeftOf(c, p)), "left error differs from the governing constraint's">>>>)
      [] e.op = "random" -> RandomCheck(st, c, e)
      [] e.op = "std" -> StdCheck(st, c, e)
      [] e.op = "dumpload" -> Ok(Put(st, e.to, Load(Dump(c))))
      [] e.op = "loadon" -> Ok(Put(st, e.to, LoadOn(st[e.to], Dump(c))))
      [] e.op = "dumped" ->
           Check(st, <<<<Rng(e.names) = Governed(c), "a dump does not name exactly the constrained parameters">>,
                       <<e.again, "a second dump differs from the first">>,
                       <<e.unchanged, "dumping changed the container">>,
                       <<e.inputkept, "loading changed the data it was given">>>>)
      [] e.op = "pair" -> PairCheck(st, c, st[e.to], e)
  ELSE Bad(st, "the implementation did something no action allows: " \o e.op \o
               (IF "msg" \in DOMAIN e THEN " (" \o e.type \o ": " \o e.msg \o ")" ELSE ""))

VARIABLES t, i, st, err
TraceInit == t \in 1..Len(Traces) /\ i = 1 /\ st = InitSt /\ err = ""
TraceNext == /\ err = "" /\ i <= Len(Traces[t].ev)
             /\ LET r == Step(st, Traces[t].ev[i]) IN st' = r.st /\ err' = r.err
             /\ i' = i + 1 /\ t' = t
TraceReport == /\ (err # "" => PrintT(<<"REJECT", t, i - 1, err>>))
               /\ ((err = "" /\ i > Len(Traces[t].ev)) => PrintT(<<"ACCEPT", t>>))
============================================================================
