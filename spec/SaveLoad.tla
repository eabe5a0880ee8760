----------------------------- MODULE SaveLoad -----------------------------
(***************************************************************************)
(* Dumping a container and loading it again.  A dump is a sequence of      *)
(* entries [ps, d]: what is in force, with multivariate constraints        *)
(* restricted to the names they still govern.  Loading applies Add to the  *)
(* entries in order, on an empty container or on top of an existing one.   *)
(***************************************************************************)
EXTENDS Constraints

Project(d, J) == IF d.k = "mvn" /\ Len(J) < Len(d.mu)
                 THEN [d EXCEPT !.mu = [a \in 1..Len(J) |-> d.mu[J[a]]], !.cov = Sub(d.cov, J)] ELSE d

RECURSIVE DumpFrom(_, _)
DumpFrom(c, k) ==
  IF k > Len(c.cons) THEN <<>>
  ELSE LET J == Active(c, k, {}) IN
       (IF J = <<>> THEN <<>> ELSE <<[ps |-> [a \in 1..Len(J) |-> c.cons[k].ps[J[a]]], d |-> Project(c.cons[k].d, J)]>>)
       \o DumpFrom(c, k + 1)
Dump(c) == DumpFrom(c, 1)

RECURSIVE LoadOn(_, _)
LoadOn(c, es) == IF es = <<>> THEN c ELSE LoadOn(Add(c, es[1].ps, es[1].d), Tail(es))
Load(es) == LoadOn(EmptyC, es)

\* what can be observed of a container of normal distributions
MuOf(c, p) == DistOf(c, p).mu[c.gov[p][2]]
CovOf(c, p, q) ==
  IF c.gov[p][1] # c.gov[q][1] THEN 0
  ELSE LET d == DistOf(c, p) IN
       IF d.k = "mvn" THEN d.cov[c.gov[p][2]][c.gov[q][2]] ELSE IF p = q THEN d.s * d.s ELSE 0
Equivalent(a, b) ==
  /\ Governed(a) = Governed(b)
  /\ \A p \in Governed(a) : MuOf(a, p) = MuOf(b, p)
  /\ \A p, q \in Governed(a) : CovOf(a, p, q) = CovOf(b, p, q)
===========================================================================
