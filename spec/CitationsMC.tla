-------------------------- MODULE CitationsMC --------------------------
(* All histories of K operations on nested collections. *)
EXTENDS Citations, TLC, Json
CONSTANTS Emitting, K
VARIABLES w, hist, owed
Known0 == {"a", "b"}
Keys == Known0 \cup {"zz"}
\* owed: ghost, for every collection the keys registered while it was innermost since
\* it was last cleared or reset
Init == /\ w = World(0, Coll({"a"}, Known0))
        /\ hist = <<>> /\ owed = [x \in {0} |-> {"a"}]
H(op, i, k) == hist' = Append(hist, [op |-> op, i |-> i, k |-> k])
Reg == \E i \in DOMAIN w.cs, k \in Keys :
         /\ i = Current(w) \/ i = 0
         /\ w' = On(w, i, Register(w.cs[i], k))
         /\ owed' = IF k = "zz" THEN owed ELSE [owed EXCEPT ![i] = @ \cup {k}]
         /\ H("reg", i, k)
Clr == \E i \in DOMAIN w.cs : i = Current(w) /\ w' = On(w, i, Clear(w.cs[i])) /\ owed' = [owed EXCEPT ![i] = {}] /\ H("clear", i, "")
Rst == \E i \in DOMAIN w.cs : w' = On(w, i, Reset(w.cs[i])) /\ owed' = [owed EXCEPT ![i] = w.cs[i].init] /\ H("reset", i, "")
Ent == /\ Len(w.stack) < 3
       /\ LET n == Cardinality(DOMAIN w.cs) IN w' = Enter(w, n, Known0) /\ owed' = Put(owed, n, {}) /\ H("enter", n, "")
Ext == /\ Len(w.stack) > 1
       /\ \E how \in {"exit", "raise"} : w' = Exit(w) /\ UNCHANGED owed /\ H(how, Current(w), "")
Comp == w' = Compute(w, {"b"}) /\ owed' = [owed EXCEPT ![Current(w)] = @ \cup {"b"}] /\ H("compute", 0, "b")
Next == Len(hist) < K /\ (Reg \/ Clr \/ Rst \/ Ent \/ Ext \/ Comp)
Inv == /\ \A i \in DOMAIN w.cs : w.cs[i].cur = owed[i] /\ w.cs[i].cur \subseteq w.cs[i].known
       /\ \A n \in 1..(Len(w.stack) - 1) : w.stack[n] < w.stack[n + 1]
       /\ w.stack[1] = 0
Emit == (Emitting /\ Len(hist) = K) => PrintT("HIST " \o ToJson(hist))
===========================================================================
