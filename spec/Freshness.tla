--------------------------- MODULE Freshness ---------------------------
(***************************************************************************)
(* What an evaluation of a prediction or likelihood depends on.            *)
(*                                                                         *)
(* An evaluation has a parameter point p and a coefficient object o.  The  *)
(* point fixes the CKM parameters and the other parameters.  The object    *)
(* has a kind (flavio's own class or the plain wilson one), a content (the *)
(* initial coefficients it was given last) and options (the order of the   *)
(* running, and the CKM parameters used for running and translating).      *)
(* For a plain wilson object the CKM parameters are always those of the    *)
(* parameter point; flavio's own object keeps the ones it was given.       *)
(* Initialising an object anew resets its options.                         *)
(*                                                                         *)
(* Nothing else enters: no history.                                        *)
(***************************************************************************)
EXTENDS Naturals, Sequences
DefQ == 1
DefCkm == "default"
NewObj(kind, c) == [kind |-> kind, c |-> c, q |-> DefQ, ckm |-> DefCkm]
SetQ(o, q) == [o EXCEPT !.q = q]
SetCkm(o, k) == [o EXCEPT !.ckm = k]
Reinit(o, c) == NewObj(o.kind, c)
\* the CKM parameters that matter when evaluating o at a point with CKM parameters pckm
Eff(o, pckm) == IF o.kind = "wilson" THEN pckm ELSE o.ckm
\* everything a value depends on
Args(o, p, pckm) == <<o.c, o.q, Eff(o, pckm), p>>
===========================================================================
