------------------------------- MODULE Tarmi --------------------------------
(***************************************************************************)
(* Shapes (tarmi) of rafsi, gismu, vowel syllables, and the consonant      *)
(* clusters a zi'evla may contain.                                         *)
(***************************************************************************)
EXTENDS Lerfu

\* Shapes, numbered as the lujvo score numbers them.
ShapeNo == [ HYPHEN |-> 0, CVCCV |-> 1, CVCC |-> 2, CCVCV |-> 3, CCVC |-> 4,
             CVC |-> 5, CVhV |-> 6, CCV |-> 7, CVV |-> 8 ]

\* CVCCV or CCVCV, whatever the clusters.
GismuShape(w) ==
    /\ Len(w) = 5
    /\ w[1] \in C /\ w[4] \in C /\ w[5] \in V
    /\ \/ w[2] \in V /\ w[3] \in C
       \/ w[2] \in C /\ w[3] \in V

IsGismu(w, mz) ==
    /\ GismuShape(w)
    /\ IF w[2] \in V THEN ValidPair(<<w[3], w[4]>>, mz) ELSE InitialPair(<<w[1], w[2]>>)

Shape(r) ==
    LET n == Len(r) IN
    IF n = 0 THEN "OTHER"
    ELSE IF n = 1 THEN (IF r[1] \in V THEN "OTHER" ELSE "HYPHEN")
    ELSE IF r[1] \notin C THEN (IF r = <<H, Y>> THEN "HYPHEN" ELSE "OTHER")
    ELSE CASE n = 3 ->
                IF r[3] \in V
                THEN IF r[2] \in V THEN "CVV" ELSE IF r[2] \in C THEN "CCV" ELSE "OTHER"
                ELSE IF r[2] \in V /\ r[3] \in C THEN "CVC" ELSE "OTHER"
           [] n = 4 ->
                IF r[2] \in V
                THEN IF r[4] \in V THEN (IF r[3] = H THEN "CVhV" ELSE "OTHER")
                     ELSE IF r[3] \in C /\ r[4] \in C THEN "CVCC" ELSE "OTHER"
                ELSE IF r[2] \in C /\ r[3] \in V /\ r[4] \in C THEN "CCVC" ELSE "OTHER"
           [] n = 5 ->
                IF GismuShape(r) THEN (IF r[3] \in V THEN "CCVCV" ELSE "CVCCV") ELSE "OTHER"
           [] OTHER -> "OTHER"

\* The shape of a form whose hyphen characters are not counted.
ShapeS(r) == Shape(Strip(r))

\* A rafsi of the reference grammar (CLL).
ValidRafsi(r, mz) ==
    LET s == Shape(r) IN
    CASE s \in {"CVCCV", "CVCC"}        -> ValidPair(<<r[3], r[4]>>, mz)
      [] s \in {"CCVCV", "CCVC", "CCV"} -> InitialPair(<<r[1], r[2]>>)
      [] s = "CVV"                      -> <<r[2], r[3]>> \in Diphthongs
      [] s \in {"CVC", "CVhV"}          -> TRUE
      [] OTHER                          -> FALSE

--------------------------------------------------------------------------
(* Syllables of a run of vowels, taken from the right: a syllable with an  *)
(* on-glide wherever one fits, and one plain syllable at most, in front.   *)
(* The result is <<>> when the run cannot be split.                        *)

\* A glide may not continue the diphthong before it.
GlideClash(before, syl) ==
    LET d == LastN(before, 2) IN
    \/ syl[1] = "i" /\ d \in { <<"a", "i">>, <<"e", "i">>, <<"o", "i">> }
    \/ syl[1] = "u" /\ d = <<"a", "u">>

RECURSIVE SyllablesFrom(_, _)
SyllablesFrom(v, acc) ==
    LET n == IF Len(v) > 3 /\ LastN(v, 3) \in GlideSyllables THEN 3
             ELSE IF Len(v) > 2 /\ LastN(v, 2) \in GlideSyllables THEN 2
             ELSE 0
        syl    == LastN(v, n)
        before == SubSeq(v, 1, Len(v) - n)
    IN  IF n > 0
        THEN IF GlideClash(before, syl) THEN <<>> ELSE SyllablesFrom(before, <<syl>> \o acc)
        ELSE IF v \in PlainSyllables \/ v \in GlideSyllables THEN <<v>> \o acc
        ELSE <<>>
Syllables(v) == SyllablesFrom(v, <<>>)

--------------------------------------------------------------------------
(* Consonant clusters of a zi'evla, given that every pair is valid. *)

ZihevlaInitial(c) ==
    \/ Len(c) <= 1
    \/ Len(c) = 2 /\ InitialPair(c)
    \/ Len(c) = 3 /\ InitialPair(SubSeq(c, 1, 2)) /\ SubSeq(c, 2, 3) \in ZihevlaInitialPairs

\* An optional consonant and then pairs that end in a sonorant.
SonorantPairs(c) ==
    \A i \in 2..Len(c) : (i % 2 = Len(c) % 2) => c[i] \in Sonorants

\* The ways to read a long cluster as g consonants (0 or 1), k pairs that
\* end in a sonorant, and an onset (1 to 3 letters, which does not begin
\* with a sonorant) or a single consonant.  Readings are preferred with g
\* as large as possible and then k as large as possible.
Onset(r) == /\ Len(r) \in 1..3
            /\ r[1] \notin Sonorants
            /\ Len(r) = 3 => r[3] \in Sonorants
Reading(c, g, k) ==
    LET r == DropN(c, g + 2 * k) IN
    /\ g + 2 * k <= Len(c)
    /\ \A j \in 1..k : c[g + 2 * j] \in Sonorants
    /\ Onset(r) \/ Len(r) = 1
LongCluster(c) ==
    LET ks(g) == { k \in 0..(Len(c) \div 2) : Reading(c, g, k) }
        g     == IF ks(1) # {} THEN 1 ELSE 0
        k     == CHOOSE x \in ks(g) : \A z \in ks(g) : z <= x
        r     == DropN(c, g + 2 * k)
    IN  /\ ks(g) # {}
        /\ Onset(r) => ZihevlaInitial(r)

ZihevlaMiddle(c) ==
    LET n == Len(c) IN
    IF n < 3 THEN TRUE
    ELSE IF n = 3
    THEN c[2] \in Sonorants \/ (ValidPair(SubSeq(c, 1, 2), FALSE) /\ InitialPair(SubSeq(c, 2, 3)))
    ELSE IF c[n - 1] = "m" /\ InitialPair(LastN(c, 2))
    THEN SonorantPairs(SubSeq(c, 1, IF ZihevlaInitial(LastN(c, 3)) THEN n - 3 ELSE n - 2))
    ELSE LongCluster(c)

=============================================================================
