------------------------------ MODULE MC_Service ------------------------------
(***************************************************************************)
(* Callers in any order, writing into the answers they got and the lists   *)
(* they passed.  The store maps list identities to their contents: an      *)
(* answer is written into a new list, so no later answer can be disturbed. *)
(* With Shared an answer is kept and handed out again (the usual cache):   *)
(* the invariant then fails, which shows that the histories can tell.      *)
(*                                                                         *)
(* With Emit the histories of Depth steps are printed for replaying.       *)
(***************************************************************************)
EXTENDS Service, Naturals, Sequences, FiniteSets, Json

CONSTANTS Keys, Depth, Emit, Shared

F(k) == <<"answer", k>>          \* the function that is computed; key 0 raises an error
Spoilt == <<"spoilt">>

VARIABLES store,   \* contents of the lists handed out so far
          last,    \* the list handed out last, 0 if the last call failed
          cache,   \* key -> list, used only when Shared
          memo, ok, hist
vars == <<store, last, cache, memo, ok, hist>>

Init == store = <<>> /\ last = 0 /\ cache = <<>> /\ memo = <<>> /\ ok = TRUE /\ hist = <<>>

Answer(k, v, how) ==
    /\ ok' = (ok /\ Agrees(memo, k, v))
    /\ memo' = Learn(memo, k, v)
    /\ hist' = Append(hist, [op |-> how, k |-> k])

Fail == /\ Answer(0, <<"error">>, "call") /\ last' = 0 /\ UNCHANGED <<store, cache>>
Call(k, how) ==
    IF Shared /\ k \in DOMAIN cache
    THEN /\ last' = cache[k] /\ UNCHANGED <<store, cache>>
         /\ Answer(k, store[cache[k]], how)
    ELSE /\ store' = Append(store, F(k)) /\ last' = Len(store) + 1
         /\ cache' = IF Shared THEN cache @@ (k :> Len(store) + 1) ELSE cache
         /\ Answer(k, F(k), how)
Spoil == /\ last # 0 /\ store[last] # Spoilt
         /\ store' = [store EXCEPT ![last] = Spoilt]
         /\ hist' = Append(hist, [op |-> "spoil", k |-> 0])
         /\ UNCHANGED <<last, cache, memo, ok>>
Next == /\ Len(hist) < Depth
        /\ \/ Fail \/ Spoil
           \/ \E k \in Keys : Call(k, "call")
           \/ \E k \in Keys : Call(k, "again")     \* with the argument list of an earlier call, refilled
Spec == Init /\ [][Next]_vars

SameArgumentsSameAnswer == ok
OnlyLearns == [][\A k \in DOMAIN memo : k \in DOMAIN memo' /\ memo'[k] = memo[k]]_vars
Printed == ~Emit \/ Len(hist) < Depth \/ PrintT(<<"HIST", ToJson(hist)>>)
=============================================================================
