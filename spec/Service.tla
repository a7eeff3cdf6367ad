------------------------------- MODULE Service --------------------------------
(***************************************************************************)
(* The library as a service shared by callers.  A call's answer is a       *)
(* function of its arguments; answers are lists that the caller owns, and  *)
(* so are the lists passed in.  memo is what an observer has learnt about  *)
(* that function; it only ever grows.                                      *)
(***************************************************************************)
EXTENDS TLC

Learnt(memo, k) == k \in DOMAIN memo
Agrees(memo, k, r) == Learnt(memo, k) => memo[k] = r
Learn(memo, k, r) == IF Learnt(memo, k) THEN memo ELSE memo @@ (k :> r)
=============================================================================
