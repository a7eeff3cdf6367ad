--------------------------------- MODULE PyCli ---------------------------------
(***************************************************************************)
(* The two command lines of the Python version: one takes words apart      *)
(* ("katna"), one builds lujvo ("jvozba").  A line that begins with / sets *)
(* what its words name, in their order; other words in it do nothing.  Any *)
(* other line is a question, and an empty one ends the session.            *)
(***************************************************************************)
EXTENDS Flags

Names == [ y |-> [standard |-> "STANDARD", allow |-> "ALLOW_Y", force |-> "FORCE_Y"],
           x |-> [more |-> TRUE, less |-> FALSE],
           c |-> ("cluster" :> "CLUSTER") @@ ("2c" :> "TWO_CONSONANTS") @@ ("1c" :> "ONE_CONSONANT"),
           g |-> [glide |-> TRUE, glidnt |-> FALSE],
           m |-> [mz |-> TRUE, mznt |-> FALSE],
           cm |-> [cmevla |-> TRUE, brivla |-> FALSE] ]
Settable(tool) == IF tool = "jvozba" THEN DOMAIN Names ELSE DOMAIN Names \ {"cm"}

\* One word (a string)
Say(S, word, tool) ==
    IF \E f \in Settable(tool) : word \in DOMAIN Names[f]
    THEN LET f == CHOOSE f \in Settable(tool) : word \in DOMAIN Names[f] IN [S EXCEPT ![f] = Names[f][word]]
    ELSE S
RECURSIVE SayAll(_, _, _, _)
SayAll(S, words, i, tool) == IF i > Len(words) THEN S ELSE SayAll(Say(S, words[i], tool), words, i + 1, tool)

\* What the prompt shows
TF(b) == IF b THEN "T" ELSE "F"
YLetter == [STANDARD |-> "S", ALLOW_Y |-> "A", FORCE_Y |-> "F"]
CLetter == [CLUSTER |-> "C", TWO_CONSONANTS |-> "T", ONE_CONSONANT |-> "O"]
Prompt(S, tool) == (IF tool = "jvozba" THEN TF(S.cm) ELSE "") \o YLetter[S.y] \o TF(S.x) \o CLetter[S.c] \o TF(S.g) \o TF(S.m)
=============================================================================
