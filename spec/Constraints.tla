--------------------------- MODULE Constraints ---------------------------
(***************************************************************************)
(* Constraint containers (parameter sets, measurements, priors).           *)
(*                                                                         *)
(* State of one container:                                                 *)
(*   cons : the constraints put on it, in order; each one is a record      *)
(*          [ps |-> sequence of names, d |-> distribution]                 *)
(*   gov  : which constraint governs which name: name -> <<index, pos>>    *)
(*                                                                         *)
(* The transitions are Add, Remove and Copy; everything a user can observe *)
(* (central values, log-probabilities, errors, draws) is a function of     *)
(* this state and is defined below.                                        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, Gaussian

Rng(s) == {s[k] : k \in 1..Len(s)}
PosOf(s, x) == CHOOSE k \in 1..Len(s) : s[k] = x
Restrict(f, D) == [x \in D |-> f[x]]

EmptyC == [cons |-> <<>>, gov |-> [x \in {} |-> <<0, 0>>]]

Governed(c) == DOMAIN c.gov

\* ---- transitions ------------------------------------------------------
Add(c, ps, d) ==
  [cons |-> Append(c.cons, [ps |-> ps, d |-> d]),
   gov  |-> [p \in Governed(c) \cup Rng(ps) |->
              IF p \in Rng(ps) THEN <<Len(c.cons) + 1, PosOf(ps, p)>> ELSE c.gov[p]]]

Remove(c, p) == [c EXCEPT !.gov = Restrict(c.gov, Governed(c) \ {p})]

\* ---- observations -----------------------------------------------------
\* positions of constraint k that are in force and not excluded, in order
Active(c, k, excl) ==
  SelectSeq([j \in 1..Len(c.cons[k].ps) |-> j],
            LAMBDA j : LET p == c.cons[k].ps[j] IN
                       /\ p \in Governed(c) /\ c.gov[p] = <<k, j>> /\ p \notin excl)

Contributing(c, excl) == {k \in 1..Len(c.cons) : Active(c, k, excl) # <<>>}

DistOf(c, p) == c.cons[c.gov[p][1]].d
CentralOf(c, p) == DistCentral(DistOf(c, p), c.gov[p][2])
ErrRightOf(c, p) == DistErrRight(DistOf(c, p), c.gov[p][2])
ErrLeftOf(c, p) == DistErrLeft(DistOf(c, p), c.gov[p][2])

\* log-probability contributed by constraint k for values x (a function from
\* names to FP numbers)
LogpOf(c, k, excl, x, delta) ==
  LET J == Active(c, k, excl)
      xs == [j \in 1..Len(J) |-> x[c.cons[k].ps[J[j]]]]
  IN DistLogp(c.cons[k].d, J, xs, delta)

\* log-probability of one name alone: the one-dimensional marginal
LogpSingle(c, p, v, delta) == DistLogp(DistOf(c, p), <<c.gov[p][2]>>, <<v>>, delta)
============================================================================
