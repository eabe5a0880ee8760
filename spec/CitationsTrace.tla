------------------------- MODULE CitationsTrace -------------------------
(* Judges what collections of citations contain.  "fresh" events tell what *)
(* a computation cites in a new session.                                   *)
EXTENDS Citations, TLC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.VERIF_TRACE)
Rng(s) == {s[i] : i \in DOMAIN s}
Ok(st) == [st |-> st, err |-> ""]
Bad(st, m) == [st |-> st, err |-> m]
Check(st, conds) ==
  LET F == {k \in 1..Len(conds) : ~conds[k][1]} IN
  IF F = {} THEN Ok(st) ELSE Bad(st, conds[CHOOSE k \in F : \A m \in F : k <= m][2])
InitSt == [w |-> World(0, Coll({}, {})), known |-> {}, cites |-> [x \in {} |-> {}]]
Step(st, e) ==
  CASE e.op = "exception" -> Bad(st, "the implementation raised " \o e.type \o ": " \o e.msg)
    [] e.op = "session" -> Ok([st EXCEPT !.known = Rng(e.known), !.w = World(0, [Coll(Rng(e.init), Rng(e.known)) EXCEPT !.cur = Rng(e.cur)])])
    [] e.op = "fresh" ->
         Check([st EXCEPT !.cites = Put(@, e.what, Rng(e.set))],
               <<<<Rng(e.set) \subseteq st.known, "an unknown paper is cited">>,
                 <<e.what \notin DOMAIN st.cites \/ st.cites[e.what] = Rng(e.set), "two new sessions give different citations">>>>)
    [] e.op = "create" -> Ok([st EXCEPT !.w.cs = Put(@, e.i, Coll(Rng(e.init), st.known))])
    [] e.op = "reg" ->
         LET c == st.w.cs[e.i] IN
         Check([st EXCEPT !.w = On(@, e.i, Register(c, e.k))],
               <<<<(e.raised = "") = Known(c, e.k), "a known key is refused or an unknown key accepted">>>>)
    [] e.op = "clear" -> Ok([st EXCEPT !.w = On(@, e.i, Clear(st.w.cs[e.i]))])
    [] e.op = "reset" -> Ok([st EXCEPT !.w = On(@, e.i, Reset(st.w.cs[e.i]))])
    [] e.op = "enter" -> Ok([st EXCEPT !.w = Enter(@, e.i, st.known)])
    [] e.op = "exit" -> Ok([st EXCEPT !.w = Exit(@)])
    [] e.op = "compute" -> Ok([st EXCEPT !.w = Compute(@, st.cites[e.what])])
    [] e.op = "theory" ->
         Check(st, <<<<Rng(e.set) = st.cites[e.what], "the citations of a prediction depend on what was computed before">>>>)
    [] e.op = "read" ->
         Check(st, <<<<Rng(e.set) = st.w.cs[e.i].cur, "a collection does not contain exactly what was registered in it">>,
                     <<Len(e.set) = Cardinality(Rng(e.set)), "a paper is listed more than once">>>>)
    [] e.op = "current" ->
         Check(st, <<<<e.i = Current(st.w), "the current collection is not the innermost open one">>>>)

VARIABLES t, i, st, err
TraceInit == t \in 1..Len(Traces) /\ i = 1 /\ st = InitSt /\ err = ""
TraceNext == /\ err = "" /\ i <= Len(Traces[t].ev)
             /\ LET r == Step(st, Traces[t].ev[i]) IN st' = r.st /\ err' = r.err
             /\ i' = i + 1 /\ t' = t
TraceReport == /\ (err # "" => PrintT(<<"REJECT", t, i - 1, err>>))
               /\ ((err = "" /\ i > Len(Traces[t].ev)) => PrintT(<<"ACCEPT", t>>))
===========================================================================
