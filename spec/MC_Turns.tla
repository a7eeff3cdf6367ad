------------------------------ MODULE MC_Turns --------------------------------
(***************************************************************************)
(* Callers that take turns in the middle of their calls.  A call is cut    *)
(* into Cuts + 1 turns; in the first it notes what it was asked, in the    *)
(* last it answers from its note.  The note is in the call's own frame, so *)
(* the answer is the caller's whatever the turns.  With Scratch there is   *)
(* one note for all (a module-level variable): the invariant then fails,   *)
(* which shows that the schedules can tell.                                *)
(*                                                                         *)
(* With Emit the complete schedules are printed for replaying: the real    *)
(* calls are stopped in between their lines (harness/turns.py).            *)
(***************************************************************************)
EXTENDS Service, Naturals, Sequences, Json

CONSTANTS Callers, Cuts, Scratch, Emit

VARIABLES pc, note, all, memo, ok, hist
vars == <<pc, note, all, memo, ok, hist>>

Init == /\ pc = [c \in Callers |-> 0] /\ note = [c \in Callers |-> 0] /\ all = 0
        /\ memo = <<>> /\ ok = TRUE /\ hist = <<>>

Noted(c) == IF Scratch THEN all ELSE note[c]
Turn(c) ==
    /\ pc[c] <= Cuts
    /\ pc' = [pc EXCEPT ![c] = @ + 1]
    /\ note' = IF pc[c] = 0 THEN [note EXCEPT ![c] = c] ELSE note
    /\ all' = IF pc[c] = 0 THEN c ELSE all
    /\ hist' = Append(hist, c)
    /\ IF pc[c] = Cuts
       THEN /\ ok' = (ok /\ Noted(c) = c /\ Agrees(memo, c, Noted(c)))
            /\ memo' = Learn(memo, c, Noted(c))
       ELSE UNCHANGED <<ok, memo>>
Next == \E c \in Callers : Turn(c)
Spec == Init /\ [][Next]_vars

Finished == \A c \in Callers : pc[c] > Cuts
EachHisOwn == ok
Answered == Finished => DOMAIN memo = Callers
Printed == ~Emit \/ ~Finished \/ PrintT(<<"HIST", ToJson(hist)>>)
=============================================================================
