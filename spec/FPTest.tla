------------------------------ MODULE FPTest ------------------------------
(* Self-test of FP.tla against values computed by the host (IEEE double).  *)
EXTENDS FP, TLC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.VERIF_TRACE)
Val(e) == CASE e.op = "add" -> FPAdd(e.a, e.b) [] e.op = "mul" -> FPMul(e.a, e.b)
            [] e.op = "div" -> FPDiv(e.a, e.b) [] e.op = "ln" -> FPLn(e.a)
            [] e.op = "exp" -> FPExp(e.a) [] e.op = "sqrt" -> FPSqrt(e.a) [] e.op = "erf" -> FPErf(e.a)
            [] e.op = "phi" -> FPPhi(e.a)
Step(st, e) == IF FPClose(Val(e), e.r, IF e.op \in {"exp","erf"} THEN <<300000000, -15>> ELSE <<200000000, -16>>, <<100000000,-16>>) THEN [st |-> st, err |-> ""]
               ELSE [st |-> st, err |-> e.op \o ": got " \o ToString(Val(e)) \o " for " \o ToString(e)]
InitSt == 0
VARIABLES t, i, st, err
TraceInit == t \in 1..Len(Traces) /\ i = 1 /\ st = InitSt /\ err = ""
TraceNext == /\ err = "" /\ i <= Len(Traces[t].ev)
             /\ LET r == Step(st, Traces[t].ev[i]) IN st' = r.st /\ err' = r.err
             /\ i' = i + 1 /\ t' = t
TraceReport == /\ (err # "" => PrintT(<<"REJECT", t, i - 1, err>>))
               /\ ((err = "" /\ i > Len(Traces[t].ev)) => PrintT(<<"ACCEPT", t>>))
============================================================================
