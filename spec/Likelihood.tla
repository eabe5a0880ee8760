---------------------------- MODULE Likelihood ----------------------------
(***************************************************************************)
(* Measurements and likelihoods.                                           *)
(* State: the measurements currently defined (name -> container of         *)
(* Constraints.tla), which of them are pseudo-measurements, a parameter    *)
(* set (a container too), and the definition of a likelihood               *)
(*   L = [obs, fit, sel, names, pseudo]   sel in {"all", "incl", "excl"}.  *)
(***************************************************************************)
EXTENDS Constraints

EmptyW == [ms |-> [x \in {} |-> EmptyC], pseudo |-> {}, par |-> EmptyC]

PutM(w, m, c, ps) == [w EXCEPT !.ms = [x \in DOMAIN w.ms \cup {m} |-> IF x = m THEN c ELSE w.ms[x]],
                               !.pseudo = IF ps THEN @ \cup {m} ELSE @ \ {m}]
DelM(w, m) == [w EXCEPT !.ms = Restrict(w.ms, DOMAIN w.ms \ {m})]

Takes(L, m) == CASE L.sel = "all" -> TRUE [] L.sel = "incl" -> m \in Rng(L.names) [] OTHER -> m \notin Rng(L.names)

\* the measurements of the likelihood
Selected(w, L) ==
  {m \in DOMAIN w.ms : /\ Governed(w.ms[m]) \cap Rng(L.obs) # {}
                       /\ L.pseudo \/ m \notin w.pseudo
                       /\ Takes(L, m)}
\* what is measured: pairs of a measurement and an observable
Measured(w, L, excl) ==
  {<<m, o>> \in Selected(w, L) \X Rng(L.obs) : o \in Governed(w.ms[m]) /\ o \notin excl}
Constrained(w, L) == Rng(L.obs) \subseteq UNION {Governed(w.ms[m]) : m \in Selected(w, L)}
NObs(w, L, excl) == Cardinality(Measured(w, L, excl))

\* what the likelihood leaves out of measurement m
Out(w, L, excl, m) == (Governed(w.ms[m]) \ Rng(L.obs)) \cup excl
\* terms: constraints of measurement m that contribute
Terms(w, L, excl) == {<<m, k>> \in Selected(w, L) \X (1..50) :
                        k <= Len(w.ms[m].cons) /\ Active(w.ms[m], k, Out(w, L, excl, m)) # <<>>}
TermLogp(w, L, excl, t, x, delta) == LogpOf(w.ms[t[1]], t[2], Out(w, L, excl, t[1]), x, delta)
RECURSIVE SumTerms(_, _, _, _, _, _)
SumTerms(w, L, excl, S, x, delta) ==
  IF S = {} THEN FPZero
  ELSE LET t == CHOOSE t \in S : TRUE IN FPAdd(TermLogp(w, L, excl, t, x, delta), SumTerms(w, L, excl, S \ {t}, x, delta))
LogLik(w, L, excl, x, delta) == SumTerms(w, L, excl, Terms(w, L, excl), x, delta)

\* the prior of exactly the fit parameters
Prior(w, L, x, delta) ==
  LET out == Governed(w.par) \ Rng(L.fit)
      K == {k \in 1..Len(w.par.cons) : Active(w.par, k, out) # <<>>}
      RECURSIVE S(_)
      S(ks) == IF ks = {} THEN FPZero ELSE LET k == CHOOSE k \in ks : TRUE IN FPAdd(LogpOf(w.par, k, out, x, delta), S(ks \ {k}))
  IN IF L.fit = <<>> THEN FPZero ELSE S(K)
===========================================================================
