--------------------------------- MODULE Flags ---------------------------------
(***************************************************************************)
(* Settings as strings of flags, for the Rust version and its command      *)
(* line.  A string of flags selects settings (Parse), shows them (Show),   *)
(* or changes them key by key (Apply): c, r, g and z are switches; A and F *)
(* choose a y-hyphen rule, 2 and 1 a consonant rule, and pressed again go  *)
(* back to the usual rule, as S and C do.                                  *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC

HyphenRules == {"STANDARD", "ALLOW_Y", "FORCE_Y"}
ConsonantRules == {"CLUSTER", "TWO_CONSONANTS", "ONE_CONSONANT"}
FlagSettings == [cm : BOOLEAN, y : HyphenRules, c : ConsonantRules, x : BOOLEAN, g : BOOLEAN, m : BOOLEAN]
Usual == [cm |-> FALSE, y |-> "STANDARD", c |-> "CLUSTER", x |-> FALSE, g |-> FALSE, m |-> FALSE]

Group == [c |-> "cm", S |-> "y", A |-> "y", F |-> "y", C |-> "c", r |-> "x", g |-> "g", z |-> "m"] @@ ("2" :> "c") @@ ("1" :> "c")
Keys == DOMAIN Group
Rule == [S |-> "STANDARD", A |-> "ALLOW_Y", F |-> "FORCE_Y", C |-> "CLUSTER"] @@ ("2" :> "TWO_CONSONANTS") @@ ("1" :> "ONE_CONSONANT")
Switch(k) == k \notin DOMAIN Rule

\* One key
Press(S, k) ==
    LET f == Group[k] IN
    [S EXCEPT ![f] = IF Switch(k) THEN ~S[f] ELSE IF S[f] = Rule[k] THEN Usual[f] ELSE Rule[k]]

RECURSIVE PressAll(_, _, _)
PressAll(S, s, i) == IF i > Len(s) THEN S ELSE PressAll(Press(S, s[i]), s, i + 1)

\* A string of keys: all of them or, when there is another character, none
KeysOnly(s) == \A i \in DOMAIN s : s[i] \in Keys
Apply(S, s) == IF KeysOnly(s) THEN PressAll(S, s, 1) ELSE S

\* The settings a string selects: at most one key of a group
Parses(s) == KeysOnly(s) /\ \A i, j \in DOMAIN s : i # j => Group[s[i]] # Group[s[j]]
Parse(s) == PressAll(Usual, s, 1)

Show(S) ==
    (IF S.cm THEN <<"c">> ELSE <<>>)
    \o (CASE S.y = "STANDARD" -> <<>> [] S.y = "ALLOW_Y" -> <<"A">> [] S.y = "FORCE_Y" -> <<"F">>)
    \o (CASE S.c = "CLUSTER" -> <<>> [] S.c = "TWO_CONSONANTS" -> <<"2">> [] S.c = "ONE_CONSONANT" -> <<"1">>)
    \o (IF S.x THEN <<"r">> ELSE <<>>) \o (IF S.g THEN <<"g">> ELSE <<>>) \o (IF S.m THEN <<"z">> ELSE <<>>)

=============================================================================
