--------------------------- MODULE InputFilesMC ---------------------------
(***************************************************************************)
(* A correlation matrix (integers, "1" = 10) is chosen entry by entry and  *)
(* written row by row in one of the accepted forms.  Checked: every way of *)
(* writing it means the same matrix, and nothing else is accepted.  The    *)
(* layouts of entries are enumerated and printed for the driver.           *)
(***************************************************************************)
EXTENDS InputFiles, TLC, Json
CONSTANTS Emitting, MaxN
VARIABLES n, M, form, rows, phase, lay
vars == <<n, M, form, rows, phase, lay>>
One == 10
Vals == {-3, 0, 6}
Init == n \in 1..MaxN /\ M = [i \in 1..n |-> [j \in 1..n |-> IF i = j THEN One ELSE 99]] /\ form = "" /\ rows = <<>> /\ phase = "m" /\ lay = ""
Unset == {p \in (1..n) \X (1..n) : p[1] < p[2] /\ M[p[1]][p[2]] = 99}
First(S) == CHOOSE p \in S : \A q \in S : p[1] < q[1] \/ (p[1] = q[1] /\ p[2] <= q[2])
SetEntry ==
  /\ phase = "m" /\ Unset # {}
  /\ LET p == First(Unset) IN
     \E x \in Vals : M' = [M EXCEPT ![p[1]][p[2]] = x, ![p[2]][p[1]] = x]
  /\ UNCHANGED <<n, form, rows, phase, lay>>
Forms == {"full", "upper", "zeros", "mixed", "number", "bad"}
Layouts == {"liststr", "dictstr"}
Choose ==
  /\ phase = "m" /\ Unset = {}
  /\ \E f \in Forms, l \in Layouts : form' = f /\ lay' = l
  /\ form' = "number" => \A i, j \in 1..n : i # j => M[i][j] = M[1][2]
  /\ phase' = "rows" /\ UNCHANGED <<n, M, rows>>
Full(i) == M[i]
Upper(i) == [j \in 1..(n - i + 1) |-> M[i][i + j - 1]]
Zeros(i) == [j \in 1..n |-> IF j < i THEN 0 ELSE M[i][j]]
WriteRow ==
  /\ phase = "rows" /\ Len(rows) < n /\ form # "number"
  /\ LET i == Len(rows) + 1 IN
     \/ form = "full" /\ rows' = Append(rows, Full(i))
     \/ form = "upper" /\ rows' = Append(rows, Upper(i))
     \/ form = "zeros" /\ rows' = Append(rows, Zeros(i))
     \/ form = "mixed" /\ (rows' = Append(rows, Upper(i)) \/ rows' = Append(rows, Zeros(i)))
     \/ form = "bad" /\ (rows' = Append(rows, Full(i)) \/ rows' = Append(rows, Append(Full(i), 0)) \/ rows' = Append(rows, [Full(i) EXCEPT ![i] = 9])
                         \/ rows' = Append(rows, SubSeq(Upper(i), 1, n - i)))
  /\ UNCHANGED <<n, M, form, phase, lay>>
End ==
  /\ phase = "rows" /\ (Len(rows) = n \/ form = "number" \/ (form = "bad" /\ Len(rows) = n - 1))
  /\ phase' = "end" /\ UNCHANGED <<n, M, form, rows, lay>>
Next == SetEntry \/ Choose \/ WriteRow \/ End
Inv ==
  phase = "end" =>
    IF form = "number" THEN Uniform(IF n = 1 THEN 0 ELSE M[1][2], n, One) = M
    ELSE IF form = "bad" THEN BadRows(rows, n, One) \/ rows = M
    ELSE ~BadRows(rows, n, One) /\ CorrDefined(rows, n, One, 0) /\ Corr(rows, n, 0) = M
Emit == (Emitting /\ phase = "end") => PrintT("HIST " \o ToJson([n |-> n, M |-> M, form |-> form, rows |-> rows, lay |-> lay]))
===========================================================================
