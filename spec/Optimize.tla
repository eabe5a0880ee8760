--------------------------- MODULE Optimize ---------------------------
(***************************************************************************)
(* The robust minimiser.  Methods are tried in order, for a number of      *)
(* rounds; each try starts at the best point known so far; it ends at the  *)
(* first success.  A try has an outcome: success or not, an end point and  *)
(* a value (compared with Less).                                           *)
(***************************************************************************)
EXTENDS Naturals, Sequences
CONSTANTS Less(_, _)
\* state of the procedure: current start, its value, tries done, result
Start(x, v) == [x |-> x, v |-> v, n |-> 0, done |-> FALSE, res |-> <<>>]
Outcome(s, x, v) == [ok |-> s, x |-> x, v |-> v]
\* the method used in try n (counted from 0)
Method(methods, n) == methods[(n % Len(methods)) + 1]
Max(methods, tries) == Len(methods) * tries
Ended(st, methods, tries) == st.done \/ st.n = Max(methods, tries)
Try(st, o) == [x |-> IF ~o.ok /\ Less(o.v, st.v) THEN o.x ELSE st.x,
               v |-> IF ~o.ok /\ Less(o.v, st.v) THEN o.v ELSE st.v,
               n |-> st.n + 1, done |-> o.ok, res |-> o]
===========================================================================
