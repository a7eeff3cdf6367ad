------------------------------- MODULE MC_Words -------------------------------
(***************************************************************************)
(* Words grown piece by piece from the chunks of a small alphabet, up to a *)
(* length: every one of them is judged by the laws of the properties, with *)
(* the specification's own answers in the place of the code's.             *)
(***************************************************************************)
EXTENDS Laws

CONSTANTS Chunks, MaxLen, Wide, Props

VARIABLE word

YS == {"STANDARD", "ALLOW_Y", "FORCE_Y"}
CS == {"CLUSTER", "TWO_CONSONANTS", "ONE_CONSONANT"}
All == [y : YS, x : BOOLEAN, c : CS, g : BOOLEAN, m : BOOLEAN]
Few == { [y |-> y, x |-> FALSE, c |-> "CLUSTER", g |-> FALSE, m |-> FALSE] : y \in YS }
       \cup { [y |-> "STANDARD", x |-> TRUE, c |-> "CLUSTER", g |-> FALSE, m |-> TRUE],
              [y |-> "ALLOW_Y", x |-> TRUE, c |-> "ONE_CONSONANT", g |-> TRUE, m |-> FALSE],
              [y |-> "STANDARD", x |-> FALSE, c |-> "TWO_CONSONANTS", g |-> FALSE, m |-> TRUE] }
Some == IF Wide THEN All ELSE Few

Init == word = <<>>
Next == \E c \in Chunks : LET cs == Chars(c) IN Len(word) + Len(cs) <= MaxLen /\ word' = word \o cs
Spec == Init /\ [][Next]_word

On(p) == p \in Props /\ word # <<>>
cme == Last(word) \in C
T(S) == Analyse(word, S).t

C06 == On("C06") => \A S \in Some : LET a == Analyse(word, S) IN Accepted(a.t) => PiecesLaw(word, a.t, a.d)

\* the algorithm and the grammar agree, and reading is unambiguous
C07 == On("C07") /\ Last(word) \in V \cup C =>
    \A y \in YS, m \in BOOLEAN :
        LET k == Jvokaha(word, Default(y, m))
            q == LujvoReadings(word, cme, y, m)
        IN  /\ k.ok = (q # {})
            /\ Cardinality(q) <= 1
            /\ k.ok => q = {k.p}

CmavoLengths == { n \in 1..(IF Len(word) < 5 THEN Len(word) - 1 ELSE 4) :
    LET p == Take(word, n)
        q == IF p[1] \in C THEN Tail(p) ELSE p
    IN  \/ Len(q) = 1 /\ q[1] \in V
        \/ Len(q) = 2 /\ q[1] \in V /\ q[2] \in V
        \/ Len(q) = 3 /\ q[1] \in V /\ q[2] = H /\ q[3] \in V }
C10 == On("C10") => \A S \in Some : T(S) \in BrivlaTypes =>
    \A n \in CmavoLengths : LET rest == DropN(word, n) IN
        rest[1] \in C \/ (Glide(rest) /\ ~S.x) => ~IsBrivlaS(rest, S) /\ ~IsBrivlaS(rest, Base(S))

C11 == On("C11") => \A S \in Some : T(S) \in BrivlaTypes /\ word[1] \in C =>
    \A cv \in { <<"t", "o">>, <<"b", "a">>, <<"l", "i">> } : Analyse(cv \o word, Base(S)).t # "LUJVO"

C12 == On("C12") => \A S \in Some : Accepted(T(S)) => Phonotactic(word, S)

C13 == On("C13") => \A S \in Some :
    /\ (T(S) = "GISMU") = IsGismu(word, S.m)
    /\ T(S) = "CMEVLA" => ~IsGismu(Append(word, "a"), S.m)

\* the settings in the order in which gating counts them
Ordinal(S) == At(CASE S.y = "STANDARD" -> 1 [] S.y = "ALLOW_Y" -> 2 [] OTHER -> 3,
                 IF S.x THEN 1 ELSE 0,
                 CASE S.c = "CLUSTER" -> 1 [] S.c = "TWO_CONSONANTS" -> 2 [] OTHER -> 3,
                 IF S.g THEN 1 ELSE 0, IF S.m THEN 1 ELSE 0)
SettingAt == [ i \in 1..72 |-> CHOOSE S \in All : Ordinal(S) = i ]
C16 == On("C16") => LET as == [ i \in 1..72 |-> Analyse(word, SettingAt[i]) ]
                    IN  Gating(word, [ i \in 1..72 |-> as[i].t ], [ i \in 1..72 |-> as[i].d ])

C20 == On("C20") => \A S \in Some :
    LET a == Analyse(word, S)
        v == GetVeljvo(word, S)
        s == ScoreLujvo(word, S)
    IN  Agreement(word, S, a.t, a.d, IF IsBrivla(word, S) THEN "yes" ELSE "no",
                  IF v.ok THEN "" ELSE v.err, IF v.ok THEN v.v ELSE <<>>, IF s.ok THEN "" ELSE s.err, IF s.ok THEN s.sc ELSE 0,
                  "", Indices(a.d), IF IsGismuOrLujvo(word, S.y, S.m) THEN "yes" ELSE "no", Analyse(word, Base(S)).t)

\* C04: the score of a word is a function of its pieces, and letters only make it worse
C04 == On("C04") => \A S \in Some : LET s == ScoreLujvo(word, S) IN
    s.ok => /\ s.sc = ScoreLaw(word, Analyse(word, S).d)
            /\ s.sc > 1000 * Len(word) - 100 * Len(word) /\ s.sc <= 1100 * Len(word)
C05 == On("C05") => \A S \in Some : LET a == Analyse(word, S) IN
    Accepted(a.t) => LET ix == Indices(a.d) IN
        SpansLaw(word, ix, a.d, Cardinality({ i \in DOMAIN a.d : a.d[i] \notin HyphenPieces })) /\ CutLaw(word, ix)

\* C15: a respelt word is the same word
C15 == On("C15") =>
    LET shout == [ i \in DOMAIN word |-> IF word[i] = H THEN "h" ELSE word[i] ]
    IN  Normalise(<<".">> \o shout) = Normalise(word) /\ Normalise(Normalise(word)) = Normalise(word)
=============================================================================
