-------------------------------- MODULE MC_Cli ---------------------------------
(***************************************************************************)
(* Sessions with the command line: questions (a word, a tanru, nothing)    *)
(* and strings of flags in any order.  With Emit the histories of Depth    *)
(* lines are printed for replaying, with real words put in for "word" and  *)
(* "tanru".                                                                *)
(***************************************************************************)
EXTENDS Flags, Json

CONSTANTS Presses,   \* the strings of flags
          Depth, Emit

Questions == { "word", "tanru", "" }
Letters(s) == SubSeq([ i \in 1..Len(s) |-> SubSeq(s, i, i) ], 1, Len(s))

VARIABLES S, hist
vars == <<S, hist>>
Init == S = Usual /\ hist = <<>>
Ask(q) == S' = S /\ hist' = Append(hist, [ask |-> q])
Set(p) == S' = Apply(S, Letters(p)) /\ hist' = Append(hist, [press |-> p])
Next == /\ Len(hist) < Depth
        /\ \/ \E q \in Questions : Ask(q)
           \/ \E p \in Presses : Set(p)
Spec == Init /\ [][Next]_vars

Settings == S \in FlagSettings
\* The settings are what all the strings so far make of the usual ones.
RECURSIVE Pressed(_, _, _)
Pressed(h, i, T) ==
    IF i > Len(h) THEN T
    ELSE Pressed(h, i + 1, IF "press" \in DOMAIN h[i] /\ KeysOnly(Letters(h[i].press)) THEN PressAll(T, Letters(h[i].press), 1) ELSE T)
Kept == S = Pressed(hist, 1, Usual)
\* Asking does not change them.
Asking == [][("ask" \in DOMAIN hist'[Len(hist')]) => S' = S]_vars
\* The prompt tells them.
Told == Parse(Show(S)) = S
Printed == ~Emit \/ Len(hist) < Depth \/ PrintT(<<"HIST", ToJson(hist)>>)
=============================================================================
