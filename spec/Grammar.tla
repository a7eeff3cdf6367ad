------------------------------- MODULE Grammar --------------------------------
(***************************************************************************)
(* What a lujvo of the reference grammar is, said without taking words     *)
(* apart or building them: there is a way to read the word as rafsi with   *)
(* hyphens between them, such that every hyphen stands where it is needed  *)
(* and none is missing.  Jvotci!Jvokaha must agree (MC_Words).             *)
(***************************************************************************)
EXTENDS Tarmi

InnerShapes == {"CVC", "CCV", "CVV", "CVhV", "CVCC", "CCVC"}
EndShapes(cm) == IF cm THEN {"CVC", "CVCC", "CCVC"} ELSE {"CCV", "CVV", "CVhV", "CVCCV", "CCVCV"}

\* The readings of w: sequences of <<rafsi, hyphen after it>>, the last with no hyphen.
RECURSIVE Readings(_, _, _)
Readings(w, cm, m) ==
    (IF ValidRafsi(w, m) /\ Shape(w) \in EndShapes(cm) THEN { << <<w, <<>>>> >> } ELSE {})
    \cup UNION { LET r == Take(w, n)
                     rest == DropN(w, n)
                     hs == {<<>>} \cup { h \in { <<Y>>, <<"r">>, <<"n">>, <<H, Y>> } : Take(rest, Len(h)) = h }
                 IN  IF ~(ValidRafsi(r, m) /\ Shape(r) \in InnerShapes) THEN {}
                     ELSE { << <<r, h>> >> \o q : <<h, q>> \in
                              UNION { { <<hh, qq>> : qq \in Readings(DropN(rest, Len(hh)), cm, m) } : hh \in hs } }
               : n \in 3..(IF Len(w) > 6 THEN 4 ELSE Len(w) - 3) }

Long(r)   == Shape(r) \in {"CVCC", "CCVC"}
Vowels(r) == Shape(r) \in {"CVV", "CVhV"}

\* Between the CVC rafsi r and the letters that follow there has to be a y.
BadJoint(r, next, m) == ~ValidPair(<<Last(r), next[1]>>, m) \/ (<<Last(r)>> \o Take(next, 2)) \in BannedTriples

RECURSIVE Letters(_, _)
Letters(q, k) == IF k > Len(q) THEN <<>> ELSE q[k][1] \o q[k][2] \o Letters(q, k + 1)

\* A first CVV or CV'V is kept on by r, by n before r; with two rafsi of
\* which the second is CCV nothing has to be there.  Where nothing has to
\* be there, r or n is let pass, except in a cmevla after its first rafsi,
\* where it has to stand before two consonants.
Needed(q) == ~(Len(q) = 2 /\ Shape(q[2][1]) = "CCV")
Glue(next) == IF next[1] = "r" THEN <<"n">> ELSE <<"r">>

\* A lujvo has a consonant cluster, also one with y in it.
HasCluster(q) == \E k \in DOMAIN q : ~Vowels(q[k][1]) \/ q[k][2] \in { <<"r">>, <<"n">> }

RECURSIVE IsLujvo(_, _, _, _)
GoodHyphen(q, k, cm, y, m) ==
    LET r == q[k][1]
        h == q[k][2]
        next == q[k + 1][1]
        tail == Letters(q, k + 1)
    IN  CASE Long(r) -> h = <<Y>>
          [] Shape(r) = "CVC" ->
                IF BadJoint(r, next, m) THEN h = <<Y>>
                ELSE IF k > 1 \/ cm THEN h = <<>>
                \* without the y, a first CV would fall off and leave a lujvo
                ELSE (h = <<Y>>) = IsLujvo(<<r[3]>> \o tail, FALSE, "STANDARD", m) /\ h \in {<<>>, <<Y>>}
          [] Vowels(r) ->
                IF y = "FORCE_Y"
                THEN h = (IF k = 1 /\ ~cm /\ Needed(q) THEN <<H, Y>> ELSE <<>>)
                ELSE \/ h = <<>> /\ ~(k = 1 /\ ~cm /\ Needed(q))
                     \/ h = Glue(next) /\ (k > 1 \/ ~cm \/ (next[1] \in C /\ next[2] \in C))
          [] OTHER -> h = <<>>

IsLujvo(w, cm, y, m) ==
    Len(w) >= 6 /\ \E q \in Readings(w, cm, m) :
        /\ Len(q) >= 2
        /\ HasCluster(q)
        /\ \A k \in 1..(Len(q) - 1) : GoodHyphen(q, k, cm, y, m)

\* the pieces of the reading
RECURSIVE PiecesOf(_, _)
PiecesOf(q, k) == IF k > Len(q) THEN <<>>
                  ELSE <<q[k][1]>> \o (IF q[k][2] = <<>> THEN <<>> ELSE <<q[k][2]>>) \o PiecesOf(q, k + 1)
LujvoReadings(w, cm, y, m) ==
    { PiecesOf(q, 1) : q \in { z \in Readings(w, cm, m) :
        /\ Len(z) >= 2 /\ HasCluster(z) /\ \A k \in 1..(Len(z) - 1) : GoodHyphen(z, k, cm, y, m) } }
=============================================================================
