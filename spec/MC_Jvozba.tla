------------------------------ MODULE MC_Jvozba ------------------------------
(***************************************************************************)
(* Building, one step at a time.  A tanru is put together component by     *)
(* component; then its forms are joined one after the other, in every way  *)
(* the joining rules allow.  `best` is what the search returns for the     *)
(* tanru: no way of joining may end better, and the word has to satisfy    *)
(* the laws of the properties.                                             *)
(***************************************************************************)
EXTENDS Laws

CONSTANTS Pool, LastPool, MaxLen, Wide, Props

VARIABLES tan, Set, cmev, forms, answer, step, part
vars == <<tan, Set, cmev, forms, answer, step, part>>

YS == {"STANDARD", "ALLOW_Y", "FORCE_Y"}
CS == {"CLUSTER", "TWO_CONSONANTS", "ONE_CONSONANT"}
All == [y : YS, x : BOOLEAN, c : CS, g : BOOLEAN, m : BOOLEAN]
Few == { [y |-> y, x |-> FALSE, c |-> "CLUSTER", g |-> FALSE, m |-> FALSE] : y \in YS }
       \cup { [y |-> "STANDARD", x |-> TRUE, c |-> "CLUSTER", g |-> FALSE, m |-> TRUE],
              [y |-> "ALLOW_Y", x |-> TRUE, c |-> "ONE_CONSONANT", g |-> TRUE, m |-> FALSE],
              [y |-> "FORCE_Y", x |-> TRUE, c |-> "TWO_CONSONANTS", g |-> FALSE, m |-> FALSE] }
Some == IF Wide THEN All ELSE Few

None == [ok |-> FALSE, err |-> ""]
Empty == [tos |-> 0, con |-> 0, w |-> <<>>, sc |-> 0, ix |-> <<>>]

Init == /\ tan = <<>> /\ Set \in Some /\ cmev \in BOOLEAN
        /\ forms = <<>> /\ answer = None /\ step = 0 /\ part = Empty

\* one more component
Grow == /\ step = 0 /\ Len(tan) < MaxLen - 1
        /\ \E c \in Pool : tan' = Append(tan, Chars(c))
        /\ UNCHANGED <<Set, cmev, forms, answer, step, part>>
\* the last one; the search gives its answer
Close == /\ step = 0 /\ tan # <<>>
         /\ \E c \in LastPool :
               LET tt == Append(tan, Chars(c))
                   ks == Components(tt, 1, Set, <<>>)
               IN  /\ tan' = tt
                   /\ forms' = IF ks.ok THEN ks.fss ELSE <<>>
                   /\ answer' = GetLujvo(tt, cmev, Set)
         /\ step' = 1
         /\ UNCHANGED <<Set, cmev, part>>
\* any form of the first component
Begin == /\ step = 1 /\ forms # <<>>
         /\ \E i \in DOMAIN forms[1] : part' = Start(forms[1][i], cmev)
         /\ step' = 2
         /\ UNCHANGED <<tan, Set, cmev, forms, answer>>
\* any form of the next one that can be joined
Step == /\ step > 1 /\ step <= Len(forms)
        /\ \E i \in DOMAIN forms[step] :
              /\ CanJoin(part, forms[step][i], Set)
              /\ part' = Join(part, forms[step][i], cmev, IF step = 2 THEN Len(forms) ELSE 0, Set)
        /\ step' = step + 1
        /\ UNCHANGED <<tan, Set, cmev, forms, answer>>
Next == Grow \/ Close \/ Begin \/ Step
Spec == Init /\ [][Next]_vars

On(q) == q \in Props
Answered == step = 1
Done == step > 1 /\ step > Len(forms) /\ Finished(part, cmev)

\* the search has the best there is, unless the best one is refused
Refused(w) == (~cmev /\ Slinkuhi(w, Set.y, Set.m)) \/ (Set.x /\ Analyse(w, Set).t = "NotBrivlaError")
C03 == On("C03") /\ Done =>
    IF answer.ok THEN answer.sc <= part.sc
    ELSE \* what is refused is at least as good as this
         LET q == BestWithout(forms, cmev, Set) IN answer.err = "NoLujvoFoundError" /\ q.ok /\ q.sc <= part.sc /\ Refused(q.w)

C01 == On("C01") /\ Answered /\ answer.ok => BuiltIsValid(answer.w, cmev, Set, Analyse(answer.w, Set).t) /\ Lean(answer.w, cmev, answer.ix, Set)
C02 == On("C02") /\ Answered /\ answer.ok => LET v == GetVeljvo(answer.w, Set) IN v.ok /\ ReadsBack(tan, v.v)
C04 == On("C04") /\ Answered /\ answer.ok =>
    LET s == ScoreLujvo(answer.w, Set) IN s.ok /\ s.sc = answer.sc /\ answer.sc = ScoreLaw(answer.w, Analyse(answer.w, Set).d)
C05 == On("C05") /\ Answered /\ answer.ok =>
    CutLaw(answer.w, answer.ix) /\ SpansLaw(answer.w, answer.ix, Analyse(answer.w, Set).d, Len(tan))
C11 == On("C11") /\ Answered /\ answer.ok /\ ~cmev /\ answer.w[1] \in C =>
    \A cv \in { <<"t", "o">>, <<"b", "a">>, <<"l", "i">> } : Analyse(cv \o answer.w, Base(Set)).t # "LUJVO"
C12 == On("C12") /\ Answered /\ answer.ok => Phonotactic(answer.w, Set)
C18 == On("C18") /\ Answered /\ answer.ok => UsesAssigned(tan, answer.w, answer.ix)
C21 == On("C21") /\ Answered /\ answer.ok => HyphensLaw(tan, cmev, answer.w, answer.ix, Set) /\ Lean(answer.w, cmev, answer.ix, Set)
\* with every component good there is an answer or NoLujvoFoundError
C22 == On("C22") /\ Answered => answer.ok \/ answer.err = "NoLujvoFoundError" \/ forms = <<>>
=============================================================================
