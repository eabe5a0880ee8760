-------------------------- MODULE ConstraintsMC --------------------------
(***************************************************************************)
(* Exhaustive exploration of the container of Constraints.tla: every       *)
(* history of Add (one or two names), Remove up to depth K.  Checked: the  *)
(* design invariants below.  Every maximal history is printed (HIST) and   *)
(* replayed by the driver into the real code.                              *)
(***************************************************************************)
EXTENDS Constraints, TLC, Json
CONSTANTS Names, K, Multi, Emitting
VARIABLES c, hist

AbsDist(n, h) == IF n = 1 THEN [k |-> "normal", mu |-> <<h>>, s |-> 1]
                 ELSE [k |-> "mvn", mu |-> [j \in 1..n |-> h], cov |-> [a \in 1..n |-> [b \in 1..n |-> IF a = b THEN 4 ELSE 1]]]

NameSeqs == {<<p>> : p \in Names} \cup
            (IF Multi >= 2 THEN {<<p, q>> : p, q \in Names} \ {<<p, p>> : p \in Names} ELSE {}) \cup
            (IF Multi >= 3 THEN {s \in [1..3 -> Names] : Cardinality(Rng(s)) = 3} ELSE {})

Init == c = EmptyC /\ hist = <<>>

AddAct(ps) == /\ c' = Add(c, ps, AbsDist(Len(ps), Len(hist)))
              /\ hist' = Append(hist, [op |-> "add", ps |-> ps])
RemoveAct(p) == /\ c' = Remove(c, p)
                /\ hist' = Append(hist, [op |-> "remove", ps |-> <<p>>])

Next == /\ Len(hist) < K
        /\ \/ \E ps \in NameSeqs : AddAct(ps)
           \/ \E p \in Names : RemoveAct(p)
Spec == Init /\ [][Next]_<<c, hist>>

\* ---- design invariants -------------------------------------------------
\* the last event of the history that touches p
LastTouch(p) == {n \in 1..Len(hist) : p \in Rng(hist[n].ps) /\ \A m \in (n+1)..Len(hist) : p \notin Rng(hist[m].ps)}
NumAdds(n) == Cardinality({m \in 1..n : hist[m].op = "add"})

LatestWins ==
  \A p \in Names :
    LET T == LastTouch(p) IN
    IF T = {} \/ hist[CHOOSE n \in T : TRUE].op = "remove" THEN p \notin Governed(c)
    ELSE LET n == CHOOSE x \in T : TRUE IN
         /\ p \in Governed(c)
         /\ c.gov[p][1] = NumAdds(n)
         /\ c.cons[c.gov[p][1]].ps[c.gov[p][2]] = p

\* every governed, non-excluded name contributes exactly once to the total
\* log-probability; nothing else does
ContributesOnce ==
  \A excl \in SUBSET Names :
    LET terms == {<<k, j>> \in (1..Len(c.cons)) \X (1..3) : j \in Rng(Active(c, k, excl))}
        names == {c.cons[t[1]].ps[t[2]] : t \in terms}
    IN /\ names = Governed(c) \ excl
       /\ Cardinality(terms) = Cardinality(names)

Inv == LatestWins /\ ContributesOnce
Emit == (Emitting /\ Len(hist) = K) => PrintT("HIST " \o ToJson(hist))
============================================================================
