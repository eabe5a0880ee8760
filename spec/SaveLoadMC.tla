---------------------------- MODULE SaveLoadMC ----------------------------
(* Every history of additions and removals: saving and loading gives an   *)
(* equivalent container, also on top of a non-empty one, and a second     *)
(* dump is the first.                                                     *)
EXTENDS SaveLoad, TLC, Json
CONSTANTS Names, K, Multi, Emitting
VARIABLES c, hist
MC == INSTANCE ConstraintsMC
Init == MC!Init
Next == MC!Next
RoundTrip == LET es == Dump(c) IN
  /\ Equivalent(Load(es), c)
  /\ Dump(Load(es)) = es
  /\ UNION {Rng(es[k].ps) : k \in 1..Len(es)} = Governed(c)
\* loading on top of another container overrides exactly the dumped names
OnTop ==
  LET base == Add(Add(EmptyC, <<"a">>, MC!AbsDist(1, 77)), <<"b">>, MC!AbsDist(1, 88))
      r == LoadOn(base, Dump(c))
  IN /\ Governed(r) = Governed(c) \cup {"a", "b"}
     /\ \A p \in Governed(c) : MuOf(r, p) = MuOf(c, p)
     /\ \A p \in {"a", "b"} \ Governed(c) : MuOf(r, p) = MuOf(base, p)
Inv == RoundTrip /\ OnTop
Emit == (Emitting /\ Len(hist) = K) => PrintT("HIST " \o ToJson(hist))
============================================================================
