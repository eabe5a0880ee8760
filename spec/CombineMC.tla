----------------------------- MODULE CombineMC -----------------------------
(***************************************************************************)
(* The result of convolving or combining N independent normal inputs does  *)
(* not depend on order or grouping.  States: a bag of values (each knowing *)
(* the inputs it contains); a step merges any two, in either order.        *)
(* Checked for all merge orders; the merge orders are printed and replayed.*)
(***************************************************************************)
EXTENDS Combine, FiniteSets, TLC, Json
CONSTANTS N, Mode, Emitting
VARIABLES bag, hist      \* bag: sequence of [ids, v]
Mu == <<3, -2, 7, 1, 0>>
Sg == <<1, 2, 3, 2, 5>>
LeafN(j) == Leaf([k |-> "normal", m |-> IF Mode = "same" THEN FPInt(3) ELSE FPInt(Mu[j]), s |-> FPInt(Sg[j])])
Init == bag = [j \in 1..N |-> [ids |-> {j}, v |-> LeafN(j)]] /\ hist = <<>>
Drop(s, a, b) == SelectSeq([j \in 1..Len(s) |-> IF j \in {a, b} THEN [ids |-> {}] ELSE s[j]], LAMBDA r : r.ids # {})
Op(vs) == IF Mode = "comb" THEN Comb(vs) ELSE Conv(vs, Mode)
Next == \E a, b \in 1..Len(bag) : a # b /\
          /\ bag' = Append(Drop(bag, a, b), [ids |-> bag[a].ids \cup bag[b].ids, v |-> Op(<<bag[a].v, bag[b].v>>)])
          /\ hist' = Append(hist, <<a, b>>)
Flat == Op([j \in 1..N |-> LeafN(j)])
Close(a, b) == FPClose(a, b, E_(-6), E_(-6))
Inv ==
  /\ \A j, k \in 1..Len(bag) : j # k => bag[j].ids \cap bag[k].ids = {}
  /\ Len(bag) = 1 => Close(bag[1].v.c, Flat.c) /\ Close(bag[1].v.var, Flat.var)
Emit == (Emitting /\ Len(bag) = 1) => PrintT("HIST " \o ToJson(hist))
=============================================================================
