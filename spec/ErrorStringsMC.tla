-------------------------- MODULE ErrorStringsMC --------------------------
(***************************************************************************)
(* The notation as a grammar.  States: templates, i.e. sequences of pieces *)
(* in which "C" (central number), "D" (error as digits), "F" (number with  *)
(* a point), "X" (power), "P" (percentage), "G" (factor > 1), "A" and "B"  *)
(* (bounds) stand for numbers; a template grows by one construct per step. *)
(* Checked: every complete template, with sample numbers, has exactly one  *)
(* reading and it is the intended one.  Complete templates are printed and *)
(* the driver fills in arbitrary numbers.                                  *)
(***************************************************************************)
EXTENDS ErrorStrings, TLC, Json
CONSTANTS Emitting, MaxErr
VARIABLES tpl, phase, mean

Fill == [C |-> <<"1", ".", "6", "7">>, D |-> <<"1", "2">>, F |-> <<"0", ".", "0", "3">>, X |-> <<"3">>, P |-> <<"9", "5">>,
         G |-> <<"1", ".", "5">>, A |-> <<"2">>, B |-> <<"7", ".", "5">>]
C0 == <<167000000, -8>>
RECURSIVE Chars(_)
Chars(t) == IF t = <<>> THEN <<>> ELSE (IF t[1] \in DOMAIN Fill THEN Fill[t[1]] ELSE <<t[1]>>) \o Chars(Tail(t))

Signs == {<<>>, <<"-">>, <<"−">>}
Sg(s) == IF s = <<>> THEN 1 ELSE -1
FPs(s, v) == IF s = <<>> THEN v ELSE FPNeg(v)
Init == tpl = <<>> /\ phase = "start" /\ mean = [k |-> "none"]

Blank == {<<>>, <<" ">>}
Start ==
  /\ phase = "start"
  /\ \/ \E par \in {<<>>, <<"(">>}, s \in Signs, b \in Blank :
          /\ tpl' = b \o par \o s \o <<"C">>
          /\ phase' = IF par = <<>> THEN "c" ELSE "cp"
          /\ mean' = [k |-> "pm", c |-> FPs(s, C0), errs |-> <<>>]
     \/ \E s \in Signs \cup {<<"+">>}, x \in {<<>>, <<"e", "X">>, <<"E", "-", "X">>, <<"e", "+", "X">>, <<"e", "−", "X">>} :
          /\ tpl' = s \o <<"C">> \o x /\ phase' = "end"
          /\ mean' = [k |-> "delta", c |-> FPScale10(IF s = <<"+">> THEN C0 ELSE FPs(s, C0),
                                                    IF x = <<>> THEN 0 ELSE IF Len(x) = 3 /\ x[2] \in {"-", "−"} THEN -3 ELSE 3)]
     \/ \E b \in Blank, x \in {<<>>, <<"e", "-", "X">>, <<"E", "X">>}, cl \in {<<"C", "L">>} :
          \E y \in {<<"C_", "L_">>, <<"C_", ".", "L_", ".">>, <<"C_", ".", " ", "L_", ".">>} :
          /\ tpl' = b \o <<"<">> \o b \o <<"C">> \o x \o b \o <<"@">> \o b \o <<"P">> \o b \o <<"%">> \o b \o y
          /\ phase' = "end"
          /\ mean' = [k |-> "limit", limit |-> FPScale10(C0, IF x = <<>> THEN 0 ELSE IF Len(x) = 3 THEN -3 ELSE 3), cl |-> <<950000000, -9>>]
     \/ \E b \in Blank, s \in Signs :
        \E xx \in {<<<<>>, <<>>>>, <<<<"e", "-", "X">>, <<"e", "-", "X">>>>, <<<<>>, <<"E", "X">>>>,
                   <<<<"e", "-", "X">>, <<>>>>, <<<<"e", "−", "X">>, <<"e", "+", "X">>>>} :
          /\ tpl' = b \o <<"[">> \o b \o s \o <<"A">> \o xx[1] \o b \o <<",">> \o b \o <<"B">> \o xx[2] \o b \o <<"]">>
          /\ phase' = "pow"
          /\ LET p(x) == IF x = <<>> THEN 0 ELSE IF Len(x) = 3 /\ x[2] # "+" THEN -3 ELSE 3 IN
             mean' = [k |-> "range", lo |-> FPScale10(FPs(s, FPInt(2)), p(xx[1])), hi |-> FPScale10(<<750000000, -8>>, p(xx[2]))]
     \/ \E s \in Signs \cup {<<"+">>}, x \in {<<>>, <<"e", "-", "X">>, <<"E", "X">>}, b \in Blank, op \in {<<"*", "/">>, <<"/", "*">>} :
          /\ tpl' = b \o s \o <<"C">> \o x \o b \o op \o b \o <<"G">> /\ phase' = "end"
          /\ mean' = [k |-> "lognormal", c |-> FPScale10(IF s = <<"+">> THEN C0 ELSE FPs(s, C0), IF x = <<>> THEN 0 ELSE IF Len(x) = 3 THEN -3 ELSE 3),
                      f |-> <<150000000, -8>>]

NErr == IF mean.k = "pm" THEN Len(mean.errs) ELSE 0
AddErr(e, piece) == tpl' = tpl \o piece /\ mean' = [mean EXCEPT !.errs = Append(@, e)]
SymE(v) == [sym |-> TRUE, r |-> v, l |-> v]
V12 == <<120000000, -9>>       \* digits 12 with two decimals
F03 == <<300000000, -10>>
Bracket ==
  /\ phase \in {"c", "cp", "b", "bp"} /\ NErr < MaxErr
  /\ \E b \in Blank : \/ AddErr(SymE(V12), b \o <<"(">> \o <<"D", ")">>)
                      \/ AddErr(SymE(F03), b \o <<"(">> \o b \o <<"F">> \o b \o <<")">>)
  /\ phase' = IF phase \in {"c", "b"} THEN "b" ELSE "bp"
PMErr ==
  /\ phase \in {"c", "cp", "p", "pp"} /\ NErr < MaxErr
  /\ \E b \in Blank :
       \/ \E op \in {<<"±">>, <<"+", "-">>, <<"\\", "p", "m">>, <<"+", "−">>} : AddErr(SymE(F03), b \o op \o b \o <<"F">>)
       \/ \E m \in {"-", "−"} : AddErr([sym |-> FALSE, r |-> F03, l |-> V12], b \o <<"+">> \o b \o <<"F">> \o b \o <<m>> \o b \o <<"0", ".", "D">>)
  /\ phase' = IF phase \in {"c", "p"} THEN "p" ELSE "pp"
Close ==
  /\ phase \in {"bp", "pp"} /\ NErr > 0
  /\ tpl' = tpl \o <<")">> /\ phase' = "pow" /\ mean' = mean
PScale(m, p) == IF m.k = "pm" THEN [m EXCEPT !.c = FPScale10(@, p), !.errs = [j \in 1..Len(m.errs) |-> Scale(m.errs[j], p)]]
                ELSE [m EXCEPT !.lo = FPScale10(@, p), !.hi = FPScale10(@, p)]
Pow ==
  /\ phase \in {"b", "p", "pow"}
  /\ \/ tpl' = tpl /\ mean' = mean
     \/ \E f \in {<<" ", "e">>, <<"e">>, <<" ", "E">>, <<" ", "1", "e">>, <<" ", "*", " ", "1", "0", "^">>, <<"*", "1", "e">>, <<" ", "1", "0", "^">>, <<" ", "*", "1", "E">>},
            x \in {<<"X">>, <<"-", "X">>, <<"+", "X">>, <<"(", "-", "X", ")">>, <<"−", "X">>} :
          /\ tpl' = tpl \o f \o x
          /\ mean' = PScale(mean, IF \E j \in 1..Len(x) : x[j] \in {"-", "−"} THEN -3 ELSE 3)
  /\ phase' = "end"
Next == Start \/ Bracket \/ PMErr \/ Close \/ Pow

\* letters C and L of "CL" are written C_ and L_ in templates
Plainify(s) == [j \in 1..Len(s) |-> IF s[j] = "C_" THEN "C" ELSE IF s[j] = "L_" THEN "L" ELSE s[j]]
Inv == phase = "end" => LET s == Plainify(Chars(tpl)) IN Parse(s) = mean /\ Readings(s) = 1
Emit == (Emitting /\ phase = "end") => PrintT("HIST " \o ToJson(tpl))
=============================================================================
