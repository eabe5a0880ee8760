--------------------------- MODULE ErrorStrings ---------------------------
(***************************************************************************)
(* The notation for constraints: what a string means.  A string is a       *)
(* sequence of one-character strings.  Parse is the meaning function of    *)
(* the notation (lenient about blanks and outer brackets): it gives        *)
(*   [k |-> "delta"|"pm"|"limit"|"range"|"lognormal"|"reject"|"any", ...]  *)
(***************************************************************************)
EXTENDS FP

Digits == {"0", "1", "2", "3", "4", "5", "6", "7", "8", "9"}
DVal == [c \in Digits |-> CASE c = "0" -> 0 [] c = "1" -> 1 [] c = "2" -> 2 [] c = "3" -> 3 [] c = "4" -> 4
                            [] c = "5" -> 5 [] c = "6" -> 6 [] c = "7" -> 7 [] c = "8" -> 8 [] OTHER -> 9]
IsD(s, i) == i <= Len(s) /\ s[i] \in Digits

\* ---- tokens: numbers (digits with at most one point) and single symbols --
RECURSIVE DigEnd(_, _)
DigEnd(s, i) == IF IsD(s, i) THEN DigEnd(s, i + 1) ELSE i        \* first non-digit
RECURSIVE IntOf(_, _, _, _)
IntOf(s, i, j, acc) == IF i >= j THEN acc ELSE IntOf(s, i + 1, j, acc * 10 + DVal[s[i]])
\* number starting at i: digits [ '.' digits ]  or '.' digits
NumTok(s, i) ==
  LET a == DigEnd(s, i)
      pt == a <= Len(s) /\ s[a] = "."
      b == IF pt THEN DigEnd(s, a + 1) ELSE a
      dec == IF pt THEN b - a - 1 ELSE 0
      int == IntOf(s, i, a, 0)
      m == IF pt THEN IntOf(s, a + 1, b, int) ELSE int
  IN [t |-> "num", end |-> b, v |-> FPNorm(m, -dec), dec |-> dec, pt |-> pt, int |-> m,
      nd |-> (a - i) + dec, lead |-> a > i]
Sym(c) == [t |-> "sym", c |-> c]
RECURSIVE Tok(_, _)
Tok(s, i) ==
  IF i > Len(s) THEN <<>>
  ELSE IF s[i] = " " THEN Tok(s, i + 1)
  ELSE IF IsD(s, i) \/ (s[i] = "." /\ IsD(s, i + 1))
  THEN LET n == NumTok(s, i) IN <<n>> \o Tok(s, n.end)
  ELSE <<Sym(IF s[i] = "−" THEN "-" ELSE s[i])>> \o Tok(s, i + 1)

IsN(T, i) == i <= Len(T) /\ T[i].t = "num"
IsS(T, i, c) == i <= Len(T) /\ T[i].t = "sym" /\ T[i].c = c
IsInt(T, i) == IsN(T, i) /\ ~T[i].pt
Skip(T, i, c) == IF IsS(T, i, c) THEN i + 1 ELSE i
SignAt(T, i) == IF IsS(T, i, "-") THEN -1 ELSE 1
AfterSign(T, i) == IF IsS(T, i, "-") \/ IsS(T, i, "+") THEN i + 1 ELSE i
Reject == [k |-> "reject"]
Fail == [ok |-> FALSE]

\* signed number at i
SNum(T, i) == LET j == AfterSign(T, i) IN
  IF IsN(T, j) THEN [ok |-> TRUE, v |-> IF SignAt(T, i) < 0 THEN FPNeg(T[j].v) ELSE T[j].v, dec |-> T[j].dec, n |-> j + 1] ELSE Fail
\* exponent e[+-]digits at i (optional)
Exp(T, i) ==
  IF IsS(T, i, "e") \/ IsS(T, i, "E")
  THEN LET j == AfterSign(T, i + 1) IN
       IF IsInt(T, j) THEN [ok |-> TRUE, e |-> SignAt(T, i + 1) * T[j].int, n |-> j + 1] ELSE Fail
  ELSE [ok |-> TRUE, e |-> 0, n |-> i]
\* overall power of ten at i, up to the end of the string
Power(T, i0) ==
  LET i == Skip(T, i0, "*")
      j == IF IsS(T, i, "e") \/ IsS(T, i, "E") THEN i + 1
           ELSE IF IsInt(T, i) /\ T[i].int = 1 /\ T[i].nd = 1 /\ (IsS(T, i + 1, "e") \/ IsS(T, i + 1, "E")) THEN i + 2
           ELSE IF IsInt(T, i) /\ T[i].int = 10 /\ T[i].nd = 2 /\ IsS(T, i + 1, "^") THEN i + 2
           ELSE 0
  IN IF i > Len(T) THEN [ok |-> TRUE, e |-> 0]
     ELSE IF j = 0 THEN Fail
     ELSE LET p == Skip(T, j, "(")
              q == AfterSign(T, p)
          IN IF IsInt(T, q) /\ Skip(T, q + 1, ")") = Len(T) + 1 THEN [ok |-> TRUE, e |-> SignAt(T, p) * T[q].int] ELSE Fail

\* errors: sequence of [l, r] (equal for symmetric ones), ends at n
ErrB(T, i) == IsS(T, i, "(") /\ IsN(T, i + 1) /\ IsS(T, i + 2, ")")
RECURSIVE Brackets(_, _, _, _)
Brackets(T, i, dec, acc) ==
  IF ErrB(T, i)
  THEN LET v == IF T[i + 1].pt THEN T[i + 1].v ELSE FPScale10(T[i + 1].v, -dec) IN
       Brackets(T, i + 3, dec, Append(acc, [sym |-> TRUE, r |-> v, l |-> v]))
  ELSE [errs |-> acc, n |-> i]
RECURSIVE PM(_, _, _)
PM(T, i, acc) ==
  LET s == [sym |-> TRUE, r |-> FPZero, l |-> FPZero] IN
  IF IsS(T, i, "±") /\ IsN(T, i + 1) THEN PM(T, i + 2, Append(acc, [s EXCEPT !.r = T[i + 1].v, !.l = T[i + 1].v]))
  ELSE IF IsS(T, i, "\\") /\ IsS(T, i + 1, "p") /\ IsS(T, i + 2, "m") /\ IsN(T, i + 3)
  THEN PM(T, i + 4, Append(acc, [s EXCEPT !.r = T[i + 3].v, !.l = T[i + 3].v]))
  ELSE IF IsS(T, i, "+") /\ IsS(T, i + 1, "-") /\ IsN(T, i + 2)
  THEN PM(T, i + 3, Append(acc, [s EXCEPT !.r = T[i + 2].v, !.l = T[i + 2].v]))
  ELSE IF IsS(T, i, "+") /\ IsN(T, i + 1) /\ IsS(T, i + 2, "-") /\ IsN(T, i + 3)
  THEN PM(T, i + 4, Append(acc, [sym |-> FALSE, r |-> T[i + 1].v, l |-> T[i + 3].v]))
  ELSE [errs |-> acc, n |-> i]

Scale(e, p) == [sym |-> e.sym, r |-> FPScale10(e.r, p), l |-> FPScale10(e.l, p)]
WithErrors(T) ==
  LET i == Skip(T, 1, "(")
      c == SNum(T, i)
  IN IF ~c.ok THEN Reject
     ELSE LET b == Brackets(T, c.n, c.dec, <<>>)
              x == IF b.errs # <<>> THEN b ELSE PM(T, c.n, <<>>)
              p == Power(T, Skip(T, x.n, ")"))
          IN IF x.errs = <<>> \/ ~p.ok THEN Reject
             ELSE IF \E j \in 1..Len(x.errs) : x.errs[j].r = FPZero \/ x.errs[j].l = FPZero THEN Reject
             ELSE [k |-> "pm", c |-> FPScale10(c.v, p.e), errs |-> [j \in 1..Len(x.errs) |-> Scale(x.errs[j], p.e)]]
Plain(T) ==
  LET c == SNum(T, 1) IN
  IF ~c.ok THEN Reject
  ELSE LET x == Exp(T, c.n) IN
       IF x.ok /\ x.n = Len(T) + 1 THEN [k |-> "delta", c |-> FPScale10(c.v, x.e)] ELSE Reject
RECURSIVE Dots(_, _)
Dots(T, i) == IF IsS(T, i, ".") THEN Dots(T, i + 1) ELSE i
Limit(T) ==
  IF ~IsS(T, 1, "<") THEN Reject
  ELSE LET c == SNum(T, 2) IN
       IF ~c.ok THEN Reject
       ELSE LET x == Exp(T, c.n) IN
            IF ~x.ok THEN Reject
            ELSE IF ~(IsS(T, x.n, "@") /\ IsN(T, x.n + 1) /\ IsS(T, x.n + 2, "%") /\ IsS(T, x.n + 3, "C")) THEN Reject
            ELSE LET d == Dots(T, x.n + 4) IN
                 IF ~IsS(T, d, "L") \/ Dots(T, d + 1) # Len(T) + 1 THEN Reject
                 ELSE LET cl == FPScale10(T[x.n + 1].v, -2) IN
                      IF c.v[1] <= 0 \/ FPLess(FPOne, cl) THEN Reject
                      ELSE IF cl = FPOne \/ cl = FPZero THEN [k |-> "any"]     \* degenerate confidence
                      ELSE [k |-> "limit", limit |-> FPScale10(c.v, x.e), cl |-> cl]
Range(T) ==
  IF ~IsS(T, 1, "[") THEN Reject
  ELSE LET a == SNum(T, 2) IN
       IF ~a.ok THEN Reject
       ELSE LET x == Exp(T, a.n) IN
            IF ~x.ok \/ ~IsS(T, x.n, ",") THEN Reject
            ELSE LET b == SNum(T, x.n + 1) IN
                 IF ~b.ok THEN Reject
                 ELSE LET y == Exp(T, b.n) IN
                      IF ~y.ok \/ ~IsS(T, y.n, "]") THEN Reject
                      ELSE LET p == Power(T, y.n + 1) IN
                           IF ~p.ok THEN Reject
                           ELSE LET lo == FPScale10(a.v, x.e + p.e)
                                    hi == FPScale10(b.v, y.e + p.e)
                                IN IF FPLess(hi, lo) THEN Reject
                                   ELSE IF hi = lo THEN [k |-> "any"]
                                   ELSE [k |-> "range", lo |-> lo, hi |-> hi]
LogN(T) ==
  LET c == SNum(T, 1) IN
  IF ~c.ok THEN Reject
  ELSE LET x == Exp(T, c.n) IN
       IF ~x.ok THEN Reject
       ELSE IF ~((IsS(T, x.n, "*") /\ IsS(T, x.n + 1, "/")) \/ (IsS(T, x.n, "/") /\ IsS(T, x.n + 1, "*"))) THEN Reject
       ELSE IF ~IsN(T, x.n + 2) \/ x.n + 2 # Len(T) THEN Reject
       ELSE IF c.v = FPZero \/ ~FPLess(FPOne, T[x.n + 2].v) THEN Reject
       ELSE [k |-> "lognormal", c |-> FPScale10(c.v, x.e), f |-> T[x.n + 2].v]

\* an error glued to a power of ten ('0.310^-3') has no unique reading
Glued(T) == \E i \in 1..Len(T) : IsN(T, i) /\ IsS(T, i + 1, "^") /\ ~(T[i].int = 10 /\ T[i].nd = 2 /\ ~T[i].pt)
Parse(s) ==
  LET T == Tok(s, 1)
      Rs == <<Plain(T), WithErrors(T), Limit(T), Range(T), LogN(T)>>
      S == {j \in 1..5 : Rs[j].k # "reject"}
  IN IF Glued(T) THEN [k |-> "any"] ELSE IF S = {} THEN Reject ELSE Rs[CHOOSE j \in S : \A m \in S : j <= m]
Readings(s) ==      \* number of forms that accept the string (must be <= 1)
  LET T == Tok(s, 1)
      Rs == <<Plain(T), WithErrors(T), Limit(T), Range(T), LogN(T)>>
  IN Len(SelectSeq(Rs, LAMBDA r : r.k # "reject"))
=============================================================================
