-------------------------- MODULE OptimizeMC --------------------------
(* All sequences of outcomes of up to M methods in up to T rounds. *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS Emitting, M, T
Lt(a, b) == a < b
INSTANCE Optimize WITH Less <- Lt
VARIABLES m, t, st, hist
vars == <<m, t, st, hist>>
Names == <<"p", "q", "r">>
Init == /\ m \in 1..M /\ t \in 1..T
        /\ st = Start(0, 0) /\ hist = <<>>
Methods == SubSeq(Names, 1, m)
Next == /\ ~Ended(st, Methods, t)
        /\ \E ok \in BOOLEAN, d \in {-1, 0, 1} :
             \* value relative to the current start; the end point of try k is k
             LET o == Outcome(ok, st.n + 1, st.v + d) IN
             /\ st' = Try(st, o)
             /\ hist' = Append(hist, [ok |-> ok, d |-> d])
        /\ UNCHANGED <<m, t>>
\* the start never gets worse, and is the best of the unsuccessful end points
Best == st.v <= 0 /\ (st.n > 0 /\ ~st.done => st.v <= st.res.v)
Stops == st.done => st.res.ok /\ \A k \in 1..(Len(hist) - 1) : ~hist[k].ok
Inv == Best /\ Stops /\ st.n <= Max(Methods, t)
Emit == (Emitting /\ Ended(st, Methods, t)) => PrintT("HIST " \o ToJson([m |-> m, t |-> t, h |-> hist]))
===========================================================================
