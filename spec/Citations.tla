--------------------------- MODULE Citations ---------------------------
(***************************************************************************)
(* Collections of citations.  A collection has initial entries and current *)
(* entries, and knows which keys exist.  Scopes nest: entering one makes a *)
(* new, empty collection the current one; leaving it (normally or by an    *)
(* exception) makes the enclosing collection current again.                *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets
Coll(init, known) == [init |-> init, cur |-> init, known |-> known \cup init]
Known(c, k) == k \in c.known
Register(c, k) == IF Known(c, k) THEN [c EXCEPT !.cur = @ \cup {k}] ELSE c
Clear(c) == [c EXCEPT !.cur = {}]
Reset(c) == [c EXCEPT !.cur = c.init]
\* world: collections by id, stack of the ids of the open ones
World(id, c) == [cs |-> [x \in {id} |-> c], stack |-> <<id>>]
Current(w) == w.stack[Len(w.stack)]
Put(f, s, c) == [x \in DOMAIN f \cup {s} |-> IF x = s THEN c ELSE f[x]]
Enter(w, id, known) == [cs |-> Put(w.cs, id, Coll({}, known)), stack |-> Append(w.stack, id)]
Exit(w) == [w EXCEPT !.stack = SubSeq(@, 1, Len(@) - 1)]
On(w, id, c) == [w EXCEPT !.cs[id] = c]
\* computing something registers its papers in the innermost open collection
Compute(w, papers) == On(w, Current(w), [w.cs[Current(w)] EXCEPT !.cur = @ \cup papers])
===========================================================================
