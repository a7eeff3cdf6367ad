------------------------------- MODULE MC_Flags --------------------------------
(***************************************************************************)
(* Settings selected by one string of flags and changed by others, in any  *)
(* order, bad strings among them.  With Emit the histories of Depth        *)
(* strings are printed for replaying.                                      *)
(***************************************************************************)
EXTENDS Flags, Json

CONSTANTS Letters,   \* the characters of the strings
          Longest,   \* their greatest length
          Depth, Emit

Strings == UNION { [ 1..n -> Letters ] : n \in 0..Longest }

VARIABLES S, hist
vars == <<S, hist>>

\* hist[1] selects, the others change
Init == \E s \in Strings : S = (IF Parses(s) THEN Parse(s) ELSE Usual) /\ hist = <<s>>
Next == /\ Len(hist) < Depth
        /\ Parses(hist[1])
        /\ \E s \in Strings : S' = Apply(S, s) /\ hist' = Append(hist, s)
Spec == Init /\ [][Next]_vars

Settings == S \in FlagSettings
ReadsBack == Parses(Show(S)) /\ Parse(Show(S)) = S
\* Selecting is pressing keys from the usual settings, in whatever order they are written.
Reversed(s) == [ i \in DOMAIN s |-> s[Len(s) + 1 - i] ]
AnyOrder == \A i \in DOMAIN hist : Parses(hist[i]) => Parse(Reversed(hist[i])) = Parse(hist[i])
\* A key pressed twice changes nothing, except that S and C always go to the usual rule.
Twice == \A k \in Keys : LET T == Press(Press(S, k), k) f == Group[k] IN
             /\ \A g \in DOMAIN S : g # f => T[g] = S[g]
             /\ IF Switch(k) THEN T = S ELSE T[f] \in {S[f], Usual[f]} /\ Press(S, k)[f] \in {Rule[k], Usual[f]}
Apart == \A k, q \in Keys : Group[k] # Group[q] => Press(Press(S, k), q) = Press(Press(S, q), k)
AllOrNone == [][KeysOnly(hist'[Len(hist')]) \/ S' = S]_vars
Printed == ~Emit \/ (Len(hist) < Depth /\ Parses(hist[1])) \/ PrintT(<<"HIST", ToJson(hist)>>)
ASSUME Cardinality(FlagSettings) = 144 /\ Cardinality({ Show(T) : T \in FlagSettings }) = 144
=============================================================================
