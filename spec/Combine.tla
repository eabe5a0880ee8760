------------------------------ MODULE Combine ------------------------------
(***************************************************************************)
(* The algebra of convolution and combination of probability distributions.*)
(* A value is a record                                                     *)
(*   kind  "normal" | "delta" | "other"                                    *)
(*   c     central value                                                   *)
(*   off   mean minus central value      var   variance                    *)
(*   parts the leaf distributions (records of Distributions.tla)           *)
(*   num   the value was obtained numerically at some point                *)
(***************************************************************************)
EXTENDS Distributions

RECURSIVE Cat(_)
Cat(ss) == IF Len(ss) = 0 THEN <<>> ELSE Head(ss) \o Cat(Tail(ss))
RECURSIVE SumF(_)
SumF(s) == IF Len(s) = 0 THEN FPZero ELSE FPAdd(Head(s), SumF(Tail(s)))
Map(vs, F(_)) == [j \in 1..Len(vs) |-> F(vs[j])]
AllEq(vs) == \A j \in 1..Len(vs) : vs[j] = vs[1]

R2OPI == <<797884561, -9>>        \* sqrt(2/pi)
TWOPI2 == <<363380228, -9>>       \* 1 - 2/pi

\* mean offset and variance of a leaf
Off(d) ==
  CASE d.k \in {"normal", "uniform", "delta"} -> FPZero
    [] d.k = "asym" -> FPMul(R2OPI, FPSub(d.r, d.l))
    [] d.k = "half" -> FPMul(R2OPI, d.s)
    [] d.k = "gamma" -> d.sc
    [] d.k = "lognormal" -> FPMul(d.m, FPSub(FPExp(FPMul(FPHalf, FPSq(FPLn(d.f)))), FPOne))
Var(d) ==
  CASE d.k = "normal" -> FPSq(d.s)
    [] d.k = "uniform" -> FPDiv(FPSq(d.h), FPInt(3))
    [] d.k = "delta" -> FPZero
    [] d.k = "asym" -> FPAdd(FPMul(TWOPI2, FPSq(FPSub(d.r, d.l))), FPMul(d.r, d.l))
    [] d.k = "half" -> FPMul(TWOPI2, FPSq(d.s))
    [] d.k = "gamma" -> FPMul(d.a, FPSq(d.sc))
    [] d.k = "lognormal" -> LET q == FPExp(FPSq(FPLn(d.f))) IN FPMul(FPSq(d.m), FPMul(FPSub(q, FPOne), q))
Centre(d) == CASE d.k = "gamma" -> FPAdd(d.loc, FPMul(FPSub(d.a, FPOne), d.sc)) [] OTHER -> d.m
Leaf(d) == [kind |-> IF d.k \in {"normal", "delta"} THEN d.k ELSE "other", c |-> Centre(d), off |-> Off(d), var |-> Var(d),
            parts |-> <<d>>, num |-> FALSE]

\* ---- convolution ---------------------------------------------------------
ConvRaises(vs, mode) ==
  IF Len(vs) = 1 THEN ""
  ELSE IF mode = "same" /\ ~AllEq(Map(vs, LAMBDA v : v.c)) THEN "AssertionError"
  ELSE IF mode = "sum" /\ \E j \in 1..Len(vs) : vs[j].kind = "delta" THEN "NotImplementedError"
  ELSE ""
Conv(vs, mode) ==
  [kind |-> IF \A j \in 1..Len(vs) : vs[j].kind = "delta" THEN "delta"
            ELSE IF \A j \in 1..Len(vs) : vs[j].kind \in {"normal", "delta"} THEN "normal" ELSE "other",
   c |-> IF mode = "same" \/ Len(vs) = 1 THEN vs[1].c ELSE SumF(Map(vs, LAMBDA v : v.c)),
   off |-> SumF(Map(vs, LAMBDA v : v.off)),
   var |-> SumF(Map(vs, LAMBDA v : v.var)),
   parts |-> Cat(Map(vs, LAMBDA v : v.parts)),
   num |-> \E j \in 1..Len(vs) : vs[j].kind = "other" \/ vs[j].num]

\* density of the convolution of one uniform with normal distributions
UniNormal(v) == Len(v.parts) >= 2 /\ \E j \in 1..Len(v.parts) : v.parts[j].k = "uniform" /\
                 \A m \in 1..Len(v.parts) : m # j => v.parts[m].k \in {"normal", "delta"}
HasNormal(v) == \E j \in 1..Len(v.parts) : v.parts[j].k = "normal"
UniNormalPdf(v, x) ==
  LET u == v.parts[CHOOSE j \in 1..Len(v.parts) : v.parts[j].k = "uniform"]
      s == FPSqrt(SumF([j \in 1..Len(v.parts) |-> IF v.parts[j].k = "normal" THEN FPSq(v.parts[j].s) ELSE FPZero]))
      y == FPSub(x, v.c)
  IN FPDiv(FPSub(FPPhi(FPDiv(FPAdd(y, u.h), s)), FPPhi(FPDiv(FPSub(y, u.h), s))), FPMul(FPTwo, u.h))

\* ---- combination -----------------------------------------------------------
Deltas(vs) == {vs[j].c : j \in {m \in 1..Len(vs) : vs[m].kind = "delta"}}
\* two flat ranges without a common point cannot both be right
Disjoint(ps) ==
  \E a, b \in 1..Len(ps) : /\ ps[a].k = "uniform" /\ ps[b].k = "uniform"
                          /\ FPLess(FPAdd(ps[a].m, ps[a].h), FPSub(ps[b].m, ps[b].h))
CombRaises(vs) ==
  IF Len(vs) > 1 /\ \E a, b \in 1..Len(vs) : vs[a].kind = "delta" /\ vs[b].kind = "delta" /\ vs[a].c # vs[b].c THEN "ValueError"
  ELSE IF Deltas(vs) = {} /\ Disjoint(Cat(Map(vs, LAMBDA v : v.parts))) THEN "ValueError"
  ELSE ""
Weight(v) == FPDiv(FPOne, v.var)
Comb(vs) ==
  IF Len(vs) = 1 THEN vs[1]
  ELSE IF Deltas(vs) # {} THEN vs[CHOOSE j \in 1..Len(vs) : vs[j].kind = "delta"]
  ELSE IF \A j \in 1..Len(vs) : vs[j].kind = "normal"
  THEN LET w == SumF(Map(vs, Weight))
           m == FPDiv(SumF(Map(vs, LAMBDA v : FPMul(Weight(v), v.c))), w)
           s2 == FPDiv(FPOne, w)
       IN [kind |-> "normal", c |-> m, off |-> FPZero, var |-> s2, num |-> FALSE,
           parts |-> <<[k |-> "normal", m |-> m, s |-> FPSqrt(s2)]>>]
  ELSE [kind |-> "other", c |-> vs[1].c, off |-> FPZero, var |-> FPZero, num |-> TRUE,
        parts |-> Cat(Map(vs, LAMBDA v : v.parts))]
\* unnormalised log-density of a combination
CombLn(v, x) == SumF([j \in 1..Len(v.parts) |-> DLogpdf(v.parts[j], x)])
============================================================================
