------------------------------- MODULE MC_PyCli --------------------------------
(***************************************************************************)
(* Sessions with the Python command lines: questions and lines of settings *)
(* in any order.  With Emit the histories of Depth lines are printed for   *)
(* replaying, with real words or tanru put in for the questions.           *)
(***************************************************************************)
EXTENDS PyCli, Json

CONSTANTS Lines,    \* lines of settings
          Tools, Depth, Emit

\* The words of a line
RECURSIVE Split(_, _, _)
Split(s, i, word) ==
    IF i > Len(s) THEN <<word>>
    ELSE LET ch == SubSeq(s, i, i) IN IF ch = " " THEN <<word>> \o Split(s, i + 1, "") ELSE Split(s, i + 1, word \o ch)
Said1 == { Split(s, 1, "") : s \in Lines }

VARIABLES tool, now, hist
vars == <<tool, now, hist>>
Init == tool \in Tools /\ now = Usual /\ hist = <<>>
Ask == now' = now /\ hist' = Append(hist, [ask |-> "?"])
Set(ws) == now' = SayAll(now, ws, 1, tool) /\ hist' = Append(hist, [say |-> ws])
Next == /\ Len(hist) < Depth
        /\ Ask \/ \E ws \in Said1 : Set(ws)
        /\ UNCHANGED tool
Spec == Init /\ [][Next]_vars

Settings == now \in FlagSettings
\* A setting is what was said of it last, if anything was said of it.
RECURSIVE Said(_, _)
Said(h, i) == IF i > Len(h) THEN <<>> ELSE (IF "say" \in DOMAIN h[i] THEN h[i].say ELSE <<>>) \o Said(h, i + 1)
LastSaid == LET ws == Said(hist, 1) IN
    \A f \in DOMAIN Names :
        LET at == { i \in DOMAIN ws : ws[i] \in DOMAIN Names[f] } IN
        IF at = {} \/ f \notin Settable(tool) THEN now[f] = Usual[f]
        ELSE now[f] = Names[f][ws[CHOOSE i \in at : \A j \in at : j <= i]]
\* Every choice has one word, and no word is for two settings.
Sayable == /\ \A f \in DOMAIN Names : \A S \in FlagSettings : Cardinality({ w \in DOMAIN Names[f] : Names[f][w] = S[f] }) = 1
           /\ \A f, h \in DOMAIN Names : f = h \/ DOMAIN Names[f] \cap DOMAIN Names[h] = {}
\* The prompt tells the settings apart.
Told == \A S \in FlagSettings : Prompt(S, tool) = Prompt(now, tool) => \A f \in Settable(tool) : S[f] = now[f]
\* A question changes nothing, and a builder of words has no kind of word to choose.
Asking == [][("ask" \in DOMAIN hist'[Len(hist')]) => now' = now]_vars
Kind == tool = "katna" => ~now.cm
Printed == ~Emit \/ Len(hist) < Depth \/ PrintT(<<"HIST", ToJson([tool |-> tool, lines |-> hist])>>)
=============================================================================
