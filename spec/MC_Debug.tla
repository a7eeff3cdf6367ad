------------------------------- MODULE MC_Debug --------------------------------
(***************************************************************************)
(* The debugging page used in any order.  With Emit the histories of Depth *)
(* events are printed for replaying; texts are named by number; *)
(* the replay also puts other settings in for m and y.                     *)
(***************************************************************************)
EXTENDS Debug, Json

CONSTANTS Texts, Depth, Emit

VARIABLES form, hist
vars == <<form, hist>>
Init == form = NewForm /\ hist = <<>>
Choices == { [op |-> "set", f |-> "cm", v |-> b] : b \in BOOLEAN } \cup { [op |-> "set", f |-> "m", v |-> b] : b \in BOOLEAN }
           \cup { [op |-> "set", f |-> "y", v |-> y] : y \in {"STANDARD", "FORCE_Y"} }
Events == { [op |-> "text", text |-> t] : t \in Texts } \cup { [op |-> "mode", mode |-> m] : m \in Functions } \cup Choices
          \cup { [op |-> o] : o \in {"default", "go"} }
Possible(e) == e.op = "set" => (form.S[e.f] # e.v /\ (e.f = "cm" => ~NoKind(form)))
Next == /\ Len(hist) < Depth
        /\ \E e \in Events : Possible(e) /\ form' = FormStep(form, e) /\ hist' = Append(hist, e)
Spec == Init /\ [][Next]_vars

Last0 == hist'[Len(hist')]
\* Only the button changes what is shown, and shows the form as it is.
Pressing == [][IF Last0.op = "go" THEN form'.made = <<form.mode, form.text, form.S>> ELSE form'.made = form.made]_vars
\* A setting is what was chosen last, or the usual one after a reset.
Kept == \A f \in DOMAIN Usual :
    LET at == { i \in DOMAIN hist : hist[i].op = "default" \/ (hist[i].op = "set" /\ hist[i].f = f) } IN
    IF at = {} THEN form.S[f] = Usual[f]
    ELSE LET i == CHOOSE i \in at : \A j \in at : j <= i IN form.S[f] = IF hist[i].op = "default" THEN Usual[f] ELSE hist[i].v
\* The other parts of the form are independent.
Alone == [][/\ Last0.op \in {"set", "default", "go"} => form'.text = form.text /\ form'.mode = form.mode
            /\ Last0.op \in {"text", "mode", "go"} => form'.S = form.S]_vars
Printed == ~Emit \/ Len(hist) < Depth \/ PrintT(<<"HIST", ToJson(hist)>>)
=============================================================================
