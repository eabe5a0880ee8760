-------------------------- MODULE InputFilesTrace -------------------------
(* Judges what the real reader made of an input file.                      *)
EXTENDS InputFiles, FiniteSets, TLC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.VERIF_TRACE)
Ok(st) == [st |-> st, err |-> ""]
Bad(st, m) == [st |-> st, err |-> m]
Check(st, conds) ==
  LET F == {k \in 1..Len(conds) : ~conds[k][1]} IN
  IF F = {} THEN Ok(st) ELSE Bad(st, conds[CHOOSE k \in F : \A m \in F : k <= m][2])

NoCorr(en) == en.corr.k = "none"
N(en) == Len(en.rows)
BadEntry(en, defs) ==
  \/ \E k \in 1..N(en) : en.rows[k].name \notin DOMAIN defs
  \/ en.layout # "param" /\ \E k \in 1..N(en) : en.rows[k].name \in DOMAIN defs /\ ~HasArgs(defs, en.rows[k].name, en.rows[k].args)
  \/ en.corr.k = "rows" /\ BadRows(en.corr.rows, N(en), FPOne)
  \/ \E k \in 1..N(en) : en.rows[k].v.k = "str" /\ Parse(en.rows[k].v.s).k = "reject"
Mat(en) == IF en.corr.k = "num" THEN Uniform(en.corr.x, N(en), FPOne)
           ELSE IF en.corr.k = "rows" THEN Corr(en.corr.rows, N(en), FPZero)
           ELSE Uniform(FPZero, N(en), FPOne)
\* index in the observation of row k
Idx(en, defs, g, k) ==
  LET S == {j \in 1..Len(g.obs) : g.obs[j].key = KeyOf(defs, en.rows[k].name, en.rows[k].args)} IN
  IF Cardinality(S) = 1 THEN CHOOSE j \in S : TRUE ELSE 0
T7 == E_(-7)
\* relative log-probability of the pair one standard deviation up (x up or down)
PairOk(rho, pp, pm) ==
  IF FPAbs(rho) = FPOne
  THEN \* a singular correlation may be softened to 0.99
       LET a == IF rho = FPOne THEN pp ELSE pm
           b == IF rho = FPOne THEN pm ELSE pp
       IN FPLess(a, <<-499999000, -9>>) /\ FPLess(<<-502513600, -9>>, a) /\ FPLess(b, FPInt(-99))
  ELSE FPClose(pp, FPNeg(FPDiv(FPOne, FPAdd(FPOne, rho))), E_(-5), FPZero)
    /\ FPClose(pm, FPNeg(FPDiv(FPOne, FPSub(FPOne, rho))), E_(-5), FPZero)

EntryClauses(en, defs, g) ==
  LET J == [k \in 1..N(en) |-> Idx(en, defs, g, k)]
      Ms == [k \in 1..N(en) |-> Meaning(en.rows[k].v)]
      corr == Mat(en)
  IN <<
   <<Len(g.obs) = N(en), "a measurement constrains other observables than those of its entry">>,
   <<\A k \in 1..N(en) : J[k] # 0, "an observable of the entry (with its arguments in the order of the definition) is not constrained">>,
   <<(\A k \in 1..N(en) : J[k] # 0) =>
       \A k \in 1..N(en) : Ms[k].k \in {"pm", "delta"} => FPClose(g.obs[J[k]].c, Ms[k].c, T7, E_(-30)),
     "the central value of an observable is not the one stated">>,
   <<(\A k \in 1..N(en) : J[k] # 0) =>
       \A k \in 1..N(en) :
         (en.corr.k # "none" \/ Gaussian(Ms[k])) =>
           FPClose(g.obs[J[k]].r, TotalError(Ms[k]), T7, FPZero) /\ FPClose(g.obs[J[k]].l, TotalError(Ms[k]), T7, FPZero),
     "the total error of an observable is not the one stated">>,
   <<(\A k \in 1..N(en) : J[k] # 0) =>
       \A k \in 1..N(en) :
         (en.corr.k = "none" /\ Ms[k].k = "pm" /\ Len(Ms[k].errs) = 1 /\ ~Ms[k].errs[1].sym) =>
           FPClose(g.obs[J[k]].r, Ms[k].errs[1].r, E_(-6), FPZero) /\ FPClose(g.obs[J[k]].l, Ms[k].errs[1].l, E_(-6), FPZero),
     "the asymmetric errors of an observable are not those stated">>,
   <<(\A k \in 1..N(en) : J[k] # 0) =>
       \A p \in 1..Len(g.pairs) :
         LET q == g.pairs[p]
             A == {k \in 1..N(en) : J[k] = q.i}
             B == {k \in 1..N(en) : J[k] = q.j}
         IN (A # {} /\ B # {} /\ (en.corr.k # "none" \/ \A k \in A \cup B : Gaussian(Ms[k]))) =>
              PairOk(corr[CHOOSE k \in A : TRUE][CHOOSE k \in B : TRUE], q.pp, q.pm),
     "the correlation of two observables is not the one stated">>,
   <<\A k \in 1..Len(en.meta) : \E m \in 1..Len(g.meta) : g.meta[m] = en.meta[k], "metadata of the entry are missing or wrong">>,
   <<\A m \in 1..Len(g.meta) : g.meta[m][2] = "" \/ \E k \in 1..Len(en.meta) : g.meta[m] = en.meta[k], "a measurement carries metadata of something else">>>>
RECURSIVE AllClauses(_, _, _, _)
AllClauses(es, defs, got, k) == IF k > Len(es) THEN <<>> ELSE EntryClauses(es[k], defs, got[k]) \o AllClauses(es, defs, got, k + 1)

Step(st, e) ==
  CASE e.op = "exception" -> Bad(st, "the implementation raised " \o e.type \o ": " \o e.msg)
    [] e.op = "load" ->
       IF \E k \in 1..Len(e.entries) : BadEntry(e.entries[k], e.defs)
       THEN Check(st, <<<<e.raised # "", "an invalid input file was accepted">>>>)
       ELSE IF e.raised # "" THEN Bad(st, "a valid input file was refused: " \o e.raised)
       ELSE Check(st, <<
              <<e.names = [k \in 1..Len(e.entries) |-> e.entries[k].name], "the names of the measurements read are not those of the file">>,
              <<e.untouched, "something that is not in the file was changed">>>>
              \o AllClauses(e.entries, e.defs, e.got, 1))
    [] e.op = "meta" ->      \* parameter metadata: name -> [tex, description]
       Check(st, <<<<\A k \in 1..Len(e.rows) : e.got[k].tex = e.rows[k].tex /\ e.got[k].description = e.rows[k].description,
                     "the metadata of a parameter are not those stated">>>>)

VARIABLES t, i, st, err
TraceInit == t \in 1..Len(Traces) /\ i = 1 /\ st = 0 /\ err = ""
TraceNext == /\ err = "" /\ i <= Len(Traces[t].ev)
             /\ LET r == Step(st, Traces[t].ev[i]) IN st' = r.st /\ err' = r.err
             /\ i' = i + 1 /\ t' = t
TraceReport == /\ (err # "" => PrintT(<<"REJECT", t, i - 1, err>>))
               /\ ((err = "" /\ i > Len(Traces[t].ev)) => PrintT(<<"ACCEPT", t>>))
===========================================================================
