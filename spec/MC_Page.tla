-------------------------------- MODULE MC_Page --------------------------------
(***************************************************************************)
(* The web page used in any order.  With Emit the histories of Depth       *)
(* events are printed for replaying; texts are named by number.            *)
(***************************************************************************)
EXTENDS Page, Json, TLC

CONSTANTS Texts, Depth, Emit

VARIABLES p, hist
vars == <<p, hist>>
Init == p = NewPage /\ hist = <<>>
Events == { [op |-> "type", text |-> t] : t \in Texts } \cup { [op |-> o] : o \in {"wait", "brivla", "cmevla", "easy"} }
Next == /\ Len(hist) < Depth
        /\ \E e \in Events : p' = Step(p, e) /\ hist' = Append(hist, e)
Spec == Init /\ [][Next]_vars

\* Only a wait that is not over leaves an old table on the page.
Fresh == p.wait \/ p.made \in {<<>>, Now(p)}
\* A press is shown at once.
Pressed == [][hist'[Len(hist')].op \in {"brivla", "cmevla", "easy"} => (p'.made = Now(p') \/ p' = p)]_vars
\* Typing alone changes no table, and the last text typed is what is shown.
Typing == [][hist'[Len(hist')].op = "type" => p'.made = p.made /\ p'.wait]_vars
Waiting == [][hist'[Len(hist')].op = "wait" => ~p'.wait /\ (p.wait => p'.made = Now(p))]_vars
Printed == ~Emit \/ Len(hist) < Depth \/ PrintT(<<"HIST", ToJson(hist)>>)
=============================================================================
