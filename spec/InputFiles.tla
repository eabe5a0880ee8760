---------------------------- MODULE InputFiles ----------------------------
(***************************************************************************)
(* The meaning of measurement and parameter input files.  A file is a      *)
(* sequence of entries; an entry states values (strings of the notation of *)
(* ErrorStrings, or distributions) for observables given by a name and     *)
(* named arguments in any order, optionally with a correlation (a number,  *)
(* full rows, upper-triangular rows or rows padded with zeros), and        *)
(* metadata.  The meaning of a file is, per entry and independently of the *)
(* other entries, a central value, total errors and a correlation matrix.  *)
(***************************************************************************)
EXTENDS ErrorStrings

\* ---- correlations: entries are numbers of an arbitrary ring (add, one, zero)
Tail_(row, n, i) == [j \in 1..n |-> IF j < i THEN 0 ELSE j - i + 1]
BadRows(rows, n, one) ==
  \/ Len(rows) # n
  \/ \E i \in 1..Len(rows) :
       IF Len(rows[i]) = n THEN rows[i][i] # one
       ELSE IF Len(rows[i]) = n - i + 1 THEN rows[i][1] # one ELSE TRUE
\* the matrix with zeros where nothing is written
Written(rows, n, zero) ==
  [i \in 1..n |-> [j \in 1..n |->
     IF Len(rows[i]) = n THEN rows[i][j] ELSE IF j < i THEN zero ELSE rows[i][j - i + 1]]]
IsSym(M, n) == \A i, j \in 1..n : M[i][j] = M[j][i]
IsUpper(M, n, zero) == \A i, j \in 1..n : j < i => M[i][j] = zero
\* defined if the matrix written is symmetric, or only its upper triangle is
CorrDefined(rows, n, one, zero) ==
  ~BadRows(rows, n, one) /\ LET M == Written(rows, n, zero) IN IsSym(M, n) \/ IsUpper(M, n, zero)
Corr(rows, n, zero) ==
  LET M == Written(rows, n, zero) IN
  IF IsSym(M, n) THEN M ELSE [i \in 1..n |-> [j \in 1..n |-> IF j < i THEN M[j][i] ELSE M[i][j]]]
Uniform(x, n, one) == [i \in 1..n |-> [j \in 1..n |-> IF i = j THEN one ELSE x]]

\* ---- observables: arguments are taken in the order of the definition
Lookup(kvs, a) == kvs[CHOOSE k \in 1..Len(kvs) : kvs[k][1] = a][2]
KeyOf(defs, name, kvs) == <<name>> \o [k \in 1..Len(defs[name]) |-> Lookup(kvs, defs[name][k])]
HasArgs(defs, name, kvs) == \A k \in 1..Len(defs[name]) : \E j \in 1..Len(kvs) : kvs[j][1] = defs[name][k]

\* ---- values: a list of error contributions around one central value
DistMean(d) == IF d.k = "normal" THEN [k |-> "pm", c |-> d.m, errs |-> <<[sym |-> TRUE, r |-> d.s, l |-> d.s]>>]
               ELSE IF d.k = "asym" THEN [k |-> "pm", c |-> d.m, errs |-> <<[sym |-> FALSE, r |-> d.r, l |-> d.l]>>]
               ELSE [k |-> "delta", c |-> d.m]
\* a list of distributions is convolved: the first central value, all errors
Meaning(v) ==
  CASE v.k = "str" -> Parse(v.s)
    [] v.k = "dist" -> DistMean(v.ds[1])
    [] v.k = "dists" ->
       LET ms == [k \in 1..Len(v.ds) |-> DistMean(v.ds[k])]
           RECURSIVE All(_)
           All(k) == IF k > Len(ms) THEN <<>> ELSE (IF ms[k].k = "pm" THEN ms[k].errs ELSE <<>>) \o All(k + 1)
       IN [k |-> "pm", c |-> ms[1].c, errs |-> All(1)]
RECURSIVE SqErr(_, _)
SqErr(errs, k) == IF k > Len(errs) THEN FPZero
                  ELSE FPAdd(IF errs[k].sym THEN FPSq(errs[k].r) ELSE FPMul(errs[k].r, errs[k].l), SqErr(errs, k + 1))
TotalError(m) == IF m.k = "pm" THEN FPSqrt(SqErr(m.errs, 1)) ELSE FPZero
Gaussian(m) == m.k = "pm" /\ \A k \in 1..Len(m.errs) : m.errs[k].sym
===========================================================================
