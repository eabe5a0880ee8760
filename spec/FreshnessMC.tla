-------------------------- MODULE FreshnessMC --------------------------
(***************************************************************************)
(* The memoising implementation refines the memory-less specification:     *)
(* model of the two caches (results of the running kept by a coefficient   *)
(* object and shared with its temporary twin; last predictions kept by a   *)
(* likelihood), for all histories of K operations.                         *)
(* KeyHash: the likelihood compares hashes only (points 1 and 2 collide,   *)
(* options do not enter); Stale: the shared cache of the object is kept    *)
(* when the CKM parameters change.  TLC refutes Inv with either of them.   *)
(***************************************************************************)
EXTENDS Freshness, TLC, Json, FiniteSets
CONSTANTS Emitting, K, KeyHash, Stale
VARIABLES obj, ref, cache, memo, hist, res
vars == <<obj, ref, cache, memo, hist, res>>
Objs == {"A", "B"}
Points == {1, 2, 3}
\* 1 and 2 have the same CKM parameters
PCkm(p) == IF p = 3 THEN "k2" ELSE "k1"
Nil == <<>>
Init == /\ obj = [o \in Objs |-> NewObj(IF o = "A" THEN "wilson" ELSE "flavio", 1)]
        /\ ref = [o \in Objs |-> IF o = "A" THEN 1 ELSE 2]
        /\ cache = [o \in Objs |-> Nil]
        /\ memo = Nil /\ hist = <<>> /\ res = Nil
Hash(p) == IF p = 2 THEN 1 ELSE p
Key(p, o, x) == IF KeyHash THEN <<Hash(p), x.kind, ref[o]>> ELSE <<p, x.kind, ref[o], x.q, x.ckm>>
\* what the running gives with the object x
Ran(o, x) == IF cache[o] = Nil \/ (x.ckm # obj[o].ckm /\ ~Stale) THEN <<x.c, x.q, x.ckm>> ELSE cache[o]
Eval(p, o, lik) ==
  LET x == IF obj[o].kind = "wilson" THEN SetCkm(obj[o], PCkm(p)) ELSE obj[o]
      hit == lik /\ memo # Nil /\ memo[1] = Key(p, o, obj[o])
      r == Ran(o, x)
      val == IF hit THEN memo[2] ELSE Append(r, p)
  IN /\ res' = <<val, Args(obj[o], p, PCkm(p))>>
     /\ IF hit THEN UNCHANGED <<obj, cache, memo>>
        ELSE /\ obj' = [obj EXCEPT ![o] = x]
             /\ cache' = [cache EXCEPT ![o] = r]
             /\ memo' = IF lik THEN <<Key(p, o, x), val>> ELSE memo
     /\ UNCHANGED ref
     /\ hist' = Append(hist, [op |-> IF lik THEN "E" ELSE "D", p |-> p, o |-> o, x |-> 0])
SetOpt(o, q) ==
  /\ obj' = [obj EXCEPT ![o] = SetQ(@, q)] /\ cache' = [cache EXCEPT ![o] = Nil]
  /\ UNCHANGED <<ref, memo>> /\ res' = Nil
  /\ hist' = Append(hist, [op |-> "O", p |-> 0, o |-> o, x |-> q])
SetC(o) ==
  /\ obj' = [obj EXCEPT ![o] = SetCkm(@, "k2")] /\ cache' = [cache EXCEPT ![o] = Nil]
  /\ UNCHANGED <<ref, memo>> /\ res' = Nil
  /\ hist' = Append(hist, [op |-> "C", p |-> 0, o |-> o, x |-> 0])
New(o, c) ==
  /\ obj' = [obj EXCEPT ![o] = Reinit(@, c)] /\ cache' = [cache EXCEPT ![o] = Nil]
  /\ ref' = [ref EXCEPT ![o] = Len(hist) + 3] /\ UNCHANGED memo /\ res' = Nil
  /\ hist' = Append(hist, [op |-> "N", p |-> 0, o |-> o, x |-> c])
Next == /\ Len(hist) < K
        /\ \E o \in Objs :
             \/ \E p \in Points, l \in BOOLEAN : Eval(p, o, l)
             \/ (Len(hist) < K - 1 /\ ((\E q \in {0, 1} : q # obj[o].q /\ SetOpt(o, q)) \/ (\E c \in {1, 2} : New(o, c))))
             \/ (Len(hist) < K - 1 /\ o = "B" /\ SetC(o))
Inv == res = Nil \/ res[1] = res[2]
Emit == (Emitting /\ Len(hist) = K) => PrintT("HIST " \o ToJson(hist))
===========================================================================
