--------------------------- MODULE LikelihoodMC ---------------------------
(***************************************************************************)
(* All histories of defining, redefining and deleting measurements of      *)
(* three observables (jointly or separately), with all selections.         *)
(* Checked: every measured observable is counted by exactly one term,      *)
(* selections partition the measurements, excluding observables removes    *)
(* exactly theirs.                                                         *)
(***************************************************************************)
EXTENDS Likelihood, TLC, Json
CONSTANTS Emitting, K
VARIABLES w, hist, L
Obs == {"a", "b", "c"}
MNames == {"m1", "m2", "P"}
D(n) == IF n = 1 THEN [k |-> "normal", mu |-> <<1>>, s |-> 1]
        ELSE [k |-> "mvn", mu |-> [j \in 1..n |-> 1], cov |-> [p \in 1..n |-> [q \in 1..n |-> IF p = q THEN 4 ELSE 1]]]
\* the ways a measurement constrains observables: sequence of groups
Ways == {<<<<"a">>>>, <<<<"a">>, <<"b">>>>, <<<<"a", "b">>>>, <<<<"c", "a">>>>, <<<<"b">>, <<"c", "a">>>>, <<<<"c">>>>,
         <<<<"c", "b">>, <<"b">>>>, <<<<"b", "a", "c">>, <<"a">>>>}
RECURSIVE Build(_, _)
Build(c, gs) == IF gs = <<>> THEN c ELSE Build(Add(c, gs[1], D(Len(gs[1]))), Tail(gs))
NoL == [obs |-> <<>>, fit |-> <<>>, sel |-> "all", names |-> <<>>, pseudo |-> FALSE]
Init == w = EmptyW /\ hist = <<>> /\ L = NoL
Define == /\ Len(hist) < K /\ L = NoL
          /\ \E m \in MNames, g \in Ways :
               /\ w' = PutM(w, m, Build(EmptyC, g), m = "P")
               /\ hist' = Append(hist, [op |-> "def", m |-> m, g |-> g])
          /\ UNCHANGED L
Delete == /\ Len(hist) < K /\ L = NoL
          /\ \E m \in DOMAIN w.ms : w' = DelM(w, m) /\ hist' = Append(hist, [op |-> "del", m |-> m, g |-> <<>>])
          /\ UNCHANGED L
ObsSeqs == {<<"a">>, <<"b", "a">>, <<"c", "b">>, <<"a", "c", "b">>, <<"c">>}
NameSeqs == {<<>>, <<"m1">>, <<"m2">>, <<"m2", "m1">>, <<"P">>, <<"m1", "P">>, <<"zz">>}
Select == /\ Len(hist) = K /\ L = NoL
          /\ \E o \in ObsSeqs, s \in {"all", "incl", "excl"}, n \in NameSeqs, p \in BOOLEAN :
               /\ (s = "all") = (n = <<>>)
               /\ L' = [obs |-> o, fit |-> <<>>, sel |-> s, names |-> n, pseudo |-> p]
          /\ UNCHANGED <<w, hist>>
Next == Define \/ Delete \/ Select

TermPairs(excl) == {<<t, o>> \in Terms(w, L, excl) \X Obs :
                      o \in {w.ms[t[1]].cons[t[2]].ps[j] : j \in Rng(Active(w.ms[t[1]], t[2], Out(w, L, excl, t[1])))}}
Inv ==
  L # NoL =>
   /\ \A excl \in SUBSET Obs :
      /\ \A mo \in Measured(w, L, excl) : Cardinality({p \in TermPairs(excl) : p[1][1] = mo[1] /\ p[2] = mo[2]}) = 1
      /\ Cardinality(TermPairs(excl)) = NObs(w, L, excl)
      /\ NObs(w, L, excl) = NObs(w, L, {}) - Cardinality({mo \in Measured(w, L, {}) : mo[2] \in excl})
   /\ LET all == [L EXCEPT !.sel = "all", !.names = <<>>]
          comp == [L EXCEPT !.sel = IF L.sel = "incl" THEN "excl" ELSE "incl"] IN
      L.sel # "all" =>
        /\ Selected(w, L) \cap Selected(w, comp) = {}
        /\ Selected(w, L) \cup Selected(w, comp) = Selected(w, all)
   /\ ~L.pseudo => Selected(w, L) \cap w.pseudo = {}
Emit == (Emitting /\ Len(hist) = K /\ L = NoL) => PrintT("HIST " \o ToJson(hist))
===========================================================================
