------------------------------- MODULE Jvotci -------------------------------
(***************************************************************************)
(* The behaviour of latkerlo-jvotci: building lujvo (jvozba), taking them  *)
(* apart (jvokaha, katna) and classifying words (analyse).                 *)
(*                                                                         *)
(* Settings are a record S:                                                *)
(*   S.y  "STANDARD" | "ALLOW_Y" | "FORCE_Y"              y-hyphens        *)
(*   S.x  BOOLEAN                         experimental rafsi shapes        *)
(*   S.c  "CLUSTER" | "TWO_CONSONANTS" | "ONE_CONSONANT"  consonants       *)
(*   S.g  BOOLEAN                         glides are consonants            *)
(*   S.m  BOOLEAN                         mz is a permitted pair           *)
(***************************************************************************)
EXTENDS Rafsi

Default(y, m) == [y |-> y, x |-> FALSE, c |-> "CLUSTER", g |-> FALSE, m |-> m]

RECURSIVE Analyse(_, _), CheckZihevla(_, _, _, _, _), Jvokaha(_, _), Slinkuhi(_, _, _)

Min2(n) == IF n < 2 THEN n ELSE 2
Failed(e) == [ok |-> FALSE, err |-> e]

-----------------------------------------------------------------------------
(* Part 1.  Scores. *)

\* A hyphen shape and an unknown shape add nothing.
ShapeScore(r) == LET s == ShapeS(r) IN IF s = "OTHER" THEN 0 ELSE ShapeNo[s]
Score(r) == 1000 * Len(r) + 100 * Count(r, {Y}) - 10 * ShapeScore(r) - Count(r, V)

\* Between lujvo of two rafsi that score the same, one that begins CVV wins.
Tiebreak(w) ==
    IF Shape(Take(w, 3)) = "CVV" /\ Shape(DropN(w, 3)) \in {"CCV", "CCVC", "CVC", "CVCC"} THEN 1 ELSE 0

RECURSIVE SumScore(_)
SumScore(ps) == IF ps = <<>> THEN 0 ELSE Score(Head(ps)) + SumScore(Tail(ps))

-----------------------------------------------------------------------------
(* Part 2.  Forms.  A component of a tanru has several forms, each a rafsi  *)
(* with the hyphen characters that belong to it and the number of           *)
(* consonants it is counted for.                                            *)

Form(f, n) == [f |-> f, n |-> n]

Forms(rafsi, type, first, last, S) ==
    LET r == IF ~first /\ rafsi[1] \in V /\ ~Glide(rafsi) THEN <<H>> \o rafsi ELSE rafsi
        HY == <<H, Y>>
    IN  CASE type \in {"SHORT BRIVLA", "CCVC", "CVCC"} ->
                IF ~last THEN << Form(Append(r, Y), 2) >>
                ELSE IF Last(r) \notin V THEN << Form(r, 2) >>
                ELSE <<>>
          [] type \in {"LONG BRIVLA", "CCVCV", "CVCCV"} ->
                IF last THEN << Form(r, 2) >> ELSE << Form(r \o HY, 2) >>
          [] type = "EXPERIMENTAL RAFSI" ->
                LET n == IF S.c # "CLUSTER" /\ (r[1] \in C \/ (S.g /\ Glide(r))) THEN 1 ELSE 0
                IN  IF last THEN << Form(r, n) >>
                    ELSE IF ~first THEN << Form(r \o HY, n) >>
                    ELSE << Form(Append(r, H), n) >>
          [] type \in {"CVV", "CVhV"} ->
                LET n == IF S.c = "CLUSTER" THEN 0 ELSE 1
                IN  (IF first THEN << Form(Append(r, H), n) >>
                     ELSE IF ~last THEN << Form(r \o HY, n) >> ELSE <<>>)
                    \o << Form(r, n) >>
          [] type = "CCV" -> << Form(r, 2), Form(r \o HY, 2) >>
          [] type = "CVC" -> << Form(r, 2) >> \o (IF last THEN <<>> ELSE << Form(Append(r, Y), 2) >>)

-----------------------------------------------------------------------------
(* Part 3.  Joining.  A partial lujvo is a record                           *)
(*   tos  how it could still fall apart: 0 not at all, 1 it is a chain of   *)
(*        CVC rafsi joined by initial pairs (tosmabru), 2 CVCy and then     *)
(*        vowels only                                                       *)
(*   con  consonants counted, at most 2 (2 is enough)                       *)
(*   w, sc, ix   the word, its score, the span of each rafsi                *)

Start(form, cm) ==
    [ tos |-> IF ShapeS(form.f) # "CVC" \/ cm THEN 0 ELSE IF Last(form.f) = Y THEN 2 ELSE 1,
      con |-> form.n, w |-> form.f, sc |-> Score(form.f), ix |-> << <<0, Len(Strip(form.f))>> >> ]

LastRafsi(p) == LET span == p.ix[Len(p.ix)] IN SubSeq(p.w, span[1] + 1, span[2])
Tight(p) == Shape(LastRafsi(p)) \in {"CVV", "CVC"}

\* Reasons a form f cannot follow the partial lujvo p.
Clash(p, f, S) ==
    LET z == Last(p.w)
        open == z \in {Y, H}
    IN  \/ z \in C /\ f[1] \in C /\ ~ValidPair(<<z, f[1]>>, S.m)
        \/ ~open /\ f[1] = H
        \/ (<<z>> \o Take(f, 2)) \in BannedTriples
        \/ ~open /\ ShapeS(f) = "OTHER"
        \/ /\ Tight(p)
           /\ \A i \in DOMAIN f : f[i] \in V \cup {H}
           /\ f[1] = H \/ (Glide(f) /\ ~S.g /\ S.c = "CLUSTER")
        \/ z = H /\ f[1] # H /\ S.y = "STANDARD"
        \/ z # H /\ Len(p.w) = 5 /\ Shape(Take(p.w, 3)) = "CCV" /\ SubSeq(p.w, 4, 5) = <<H, Y>>

\* The hyphen put between p and f; n is the number of components when p is
\* a single form, 0 later on.
Hyphen(p, f, cm, n, S) ==
    IF Last(p.w) = H THEN <<Y>>
    ELSE IF Len(p.w) <= 5 /\ ~cm /\ ShapeS(p.w) \in {"CVV", "CVhV"} /\ ~(n = 2 /\ ShapeS(f) = "CCV")
    THEN IF S.y = "FORCE_Y" THEN <<H, Y>> ELSE IF f[1] = "r" THEN <<"n">> ELSE <<"r">>
    ELSE <<>>

\* f would leave a chain of CVC rafsi that falls apart: pa + smabru.
FallsApart(p, f) ==
    /\ p.tos = 1
    /\ InitialPair(<<Last(p.w), f[1]>>)
    /\ \/ ShapeS(f) = "CVCCV" /\ InitialPair(<<f[3], f[4]>>)
       \/ ShapeS(f) = "CVC" /\ Last(f) = Y

NextTos(p, f) ==
    CASE p.tos = 1 -> IF InitialPair(<<Last(p.w), f[1]>>) /\ ShapeS(f) = "CVC" THEN 1 ELSE 0
      [] p.tos = 2 -> IF f[1] # H \/ (\E i \in DOMAIN f : f[i] \in C) THEN 0 ELSE 2
      [] OTHER     -> 0

RECURSIVE LastLetter(_), DropApostrophes(_)
LastLetter(w) == IF Last(w) \in {H, Y} THEN LastLetter(ButLast(w)) ELSE Last(w)
DropApostrophes(w) == IF w[1] = H THEN DropApostrophes(Tail(w)) ELSE w

Consonants(p, form, hy, S) ==
    LET bare == DropApostrophes(form.f)
        new  == IF hy \in { <<"r">>, <<"n">> } THEN 2
                ELSE IF S.c # "CLUSTER" \/ form.n = 2 THEN form.n
                ELSE IF LastLetter(p.w) \in C /\ (bare[1] \in C \/ (S.g /\ Glide(bare))) THEN 2 ELSE 0
        sum  == Min2(p.con + new)
    IN  IF S.c = "ONE_CONSONANT" /\ sum > 0 THEN 2 ELSE sum

CanJoin(p, form, S) == ~Clash(p, form.f, S) /\ ~FallsApart(p, form.f)

Join(p, form, cm, n, S) ==
    LET f   == form.f
        hy  == Hyphen(p, f, cm, n, S)
        w   == p.w \o hy \o f
        at  == Len(p.w) + Len(hy) + (IF f[1] = H THEN 1 ELSE 0)
    IN  [ tos |-> NextTos(p, f),
          con |-> Consonants(p, form, hy, S),
          w   |-> w,
          sc  |-> p.sc + Score(hy) + Score(f) - (IF n = 2 THEN Tiebreak(w) ELSE 0),
          ix  |-> Append(p.ix, <<at, at + Len(Strip(f))>>) ]

-----------------------------------------------------------------------------
(* Part 4.  The best lujvo.  Partial lujvo compete when they could still    *)
(* fall apart in the same way, have the same number of consonants and end   *)
(* in the same letter - and, where rafsi of vowels only may follow, when    *)
(* those can follow both or neither.  The first of the best stays.          *)

SameClass(p, q, S) == /\ p.tos = q.tos /\ p.con = q.con /\ Last(p.w) = Last(q.w)
                      /\ S.x => Tight(p) = Tight(q)

Keep(best, q, S) ==
    LET at == { i \in DOMAIN best : SameClass(best[i], q, S) } IN
    IF at = {} THEN Append(best, q)
    ELSE LET i == CHOOSE k \in at : TRUE IN IF best[i].sc > q.sc THEN [best EXCEPT ![i] = q] ELSE best

\* The order in which partial lujvo are extended.
Ordered(best) ==
    LET OfClass(t, k) == SelectSeq(best, LAMBDA p : p.tos = t /\ p.con = k)
    IN  OfClass(0,0) \o OfClass(0,1) \o OfClass(0,2) \o OfClass(1,0) \o OfClass(1,1) \o OfClass(1,2)
        \o OfClass(2,0) \o OfClass(2,1) \o OfClass(2,2)

RECURSIVE JoinAll(_, _, _, _, _, _), Extend(_, _, _, _, _, _)
\* ps[i..] extended by one form
JoinAll(ps, i, form, cm, S, best) ==
    IF i > Len(ps) THEN best
    ELSE JoinAll(ps, i + 1, form, cm, S,
                 IF CanJoin(ps[i], form, S) THEN Keep(best, Join(ps[i], form, cm, 0, S), S) ELSE best)
\* ps extended by forms[j..]
Extend(ps, forms, j, cm, S, best) ==
    IF j > Len(forms) THEN best
    ELSE Extend(ps, forms, j + 1, cm, S, JoinAll(ps, 1, forms[j], cm, S, best))

RECURSIVE FirstPairs(_, _, _, _, _, _, _, _)
FirstPairs(f0, f1, i, j, cm, n, S, best) ==
    IF i > Len(f0) THEN best
    ELSE IF j > Len(f1) THEN FirstPairs(f0, f1, i + 1, 1, cm, n, S, best)
    ELSE LET p == Start(f0[i], cm) IN
         FirstPairs(f0, f1, i, j + 1, cm, n, S,
                    IF CanJoin(p, f1[j], S) THEN Keep(best, Join(p, f1[j], cm, n, S), S) ELSE best)

RECURSIVE Rest(_, _, _, _, _)
Rest(formss, k, cm, S, best) ==
    IF k > Len(formss) THEN best
    ELSE Rest(formss, k + 1, cm, S, Extend(Ordered(best), formss[k], 1, cm, S, <<>>))

\* A finished lujvo cannot fall apart, has its cluster, and ends as asked.
Finished(p, cm) == p.tos = 0 /\ p.con = 2 /\ Last(p.w) \in (IF cm THEN C ELSE V)

RECURSIVE PickBest(_, _, _)
PickBest(fs, i, b) == IF i > Len(fs) THEN b ELSE PickBest(fs, i + 1, IF fs[i].sc < fs[b].sc THEN i ELSE b)

\* The best of the finished ones, slinku'i or not.
BestWithout(formss, cm, S) ==
    IF Len(formss) < 2 THEN Failed("NoLujvoFoundError")
    ELSE LET best == Rest(formss, 3, cm, S, FirstPairs(formss[1], formss[2], 1, 1, cm, Len(formss), S, <<>>))
             fs   == SelectSeq(best, LAMBDA p : Finished(p, cm))
         IN  IF fs = <<>> THEN Failed("NoLujvoFoundError")
             ELSE LET b == fs[PickBest(fs, 2, 1)] IN [ok |-> TRUE, w |-> b.w, sc |-> b.sc, ix |-> b.ix]

BestOf(formss, cm, S) ==
    LET b == BestWithout(formss, cm, S) IN
    IF b.ok /\ ~cm /\ Slinkuhi(b.w, S.y, S.m) THEN Failed("NoLujvoFoundError") ELSE b

-----------------------------------------------------------------------------
(* Part 5.  Taking a word apart from the front, whether or not it is well   *)
(* formed.  The result has the pieces, or the kind of failure: "D" it does  *)
(* not decompose, "N" it certainly is no brivla.                            *)

\* The rafsi or hyphen at the front of rest, after the pieces res.
\* <<kind, letters taken, y taken after it>>
FrontHyphen(rest, res, y) ==
    IF res = <<>> \/ Len(Last(res)) = 1 THEN 0
    ELSE IF rest[1] = Y THEN 1
    ELSE IF /\ y # "FORCE_Y"
            /\ \/ Take(rest, 2) = <<"n", "r">>
               \/ rest[1] = "r" /\ Len(rest) > 1 /\ rest[2] \in C /\ rest[2] # "r"
            /\ Shape(Last(res)) \in {"CVV", "CVhV"} THEN 1
    ELSE IF y # "STANDARD" /\ Take(rest, 2) = <<H, Y>> THEN 2
    ELSE 0

RECURSIVE PiecesFrom(_, _, _, _, _)
PiecesFrom(rest, res, whole, y, m) ==
    IF rest = <<>> THEN [ok |-> TRUE, p |-> res]
    ELSE LET h  == FrontHyphen(rest, res, y)
             t3 == Take(rest, 3)
             t4 == Take(rest, 4)
             s3 == Shape(t3)
             s4 == Shape(t4)
             Go(n) == PiecesFrom(DropN(rest, n), Append(res, Take(rest, n)), whole, y, m)
         IN
         IF h > 0 THEN Go(h)
         ELSE IF s3 = "CVV" /\ <<rest[2], rest[3]>> \in Diphthongs THEN Go(3)
         ELSE IF s4 = "CVhV" THEN Go(4)
         ELSE IF s4 \in {"CVCC", "CCVC"} /\ ~ValidRafsi(t4, m) THEN Failed("D")
         ELSE IF s4 \in {"CVCC", "CCVC"} /\ (Len(rest) = 4 \/ rest[5] = Y)
              THEN IF Len(rest) = 4 THEN Go(4)
                   ELSE PiecesFrom(DropN(rest, 5), res \o <<t4, <<Y>>>>, whole, y, m)
         ELSE IF Shape(rest) \in {"CVCCV", "CCVCV"} THEN [ok |-> TRUE, p |-> Append(res, rest)]
         ELSE IF s3 = "CVC"
              THEN IF Take(DropN(rest, 2), 3) \in BannedTriples THEN Failed("D") ELSE Go(3)
         ELSE IF s3 = "CCV"
              THEN IF ~InitialPair(Take(rest, 2)) THEN Failed("D")
                   ELSE IF rest = whole /\ Take(DropN(rest, 3), 2) = <<H, Y>> THEN Failed("N")
                   ELSE Go(3)
         ELSE Failed("D")

Pieces(w, y, m) == PiecesFrom(w, <<>>, w, y, m)

-----------------------------------------------------------------------------
(* Part 6.  A lujvo of the reference grammar: its pieces rejoin, by the     *)
(* rules of Part 3 and with the best hyphens, to the word itself, except    *)
(* that an r or n hyphen may be there without need.                         *)

RafsiForms(ps, S) ==
    LET long == SelectSeq(ps, LAMBDA p : Len(p) > 2)
    IN  SubSeq([ i \in 1..Len(long) |-> Forms(long[i], Shape(long[i]), i = 1, i = Len(long), S) ], 1, Len(long))

RECURSIVE SamePieces(_, _, _, _)
SamePieces(corr, other, j, i) ==
    IF j > Len(corr) THEN i = Len(other) + 1
    ELSE IF i > Len(other) THEN FALSE
    ELSE IF corr[j] = other[i] THEN SamePieces(corr, other, j + 1, i + 1)
    ELSE /\ 1 < i /\ i < Len(other)
         /\ other[i] \in { <<"r">>, <<"n">> }
         /\ Shape(other[i - 1]) \in {"CVV", "CVhV"}
         /\ i > 2 \/ Shape(other[i + 1]) \in {"CCVCV", "CCVC", "CCV"}
         /\ corr[j] = other[i + 1]
         /\ SamePieces(corr, other, j + 1, i + 2)

Jvokaha(w, S) ==
    LET k == Pieces(w, S.y, S.m) IN
    IF ~k.ok THEN k
    ELSE LET long == SelectSeq(k.p, LAMBDA p : Len(p) > 2) IN
         IF Len(long) < 2 THEN Failed("D")
         ELSE IF \E i \in DOMAIN long : ~ValidRafsi(long[i], S.m) THEN Failed("D")
         ELSE LET b == BestOf(RafsiForms(k.p, S), Last(Last(k.p)) \in C, S) IN
              IF ~b.ok THEN Failed("D")
              ELSE IF S.y = "FORCE_Y" THEN (IF b.w = w THEN k ELSE Failed("D"))
              ELSE LET kb == Pieces(b.w, S.y, S.m) IN
                   IF ~kb.ok THEN kb
                   ELSE IF SamePieces(kb.p, k.p, 1, 1) THEN k ELSE Failed("D")

\* A cmavo of the form CV before the word would make one lujvo of both.
Slinkuhi(w, y, m) ==
    /\ w[1] \notin V
    /\ Jvokaha(<<"t", "o">> \o w, Default(y, m)).ok

-----------------------------------------------------------------------------
(* Part 7.  Zi'evla and rafsi of experimental shape.  The result is         *)
(* "ZIhEVLA", "RAFSI" or "NO".                                              *)

IsBrivlaD(w, y, m) == Analyse(w, Default(y, m)).t \in {"GISMU", "ZIhEVLA", "LUJVO", "EXTENDED_LUJVO"}

\* The runs of consonants, vowels and apostrophes: <<start, kind, letters>>
Kind(c) == IF c \in C THEN "C" ELSE IF c \in V THEN "V" ELSE IF c = H THEN "H" ELSE "?"
RECURSIVE RunEnd(_, _)
RunEnd(w, i) == IF i < Len(w) /\ Kind(w[i + 1]) = Kind(w[i]) THEN RunEnd(w, i + 1) ELSE i
RECURSIVE Runs(_, _)
Runs(w, i) ==
    IF i > Len(w) THEN <<>>
    ELSE LET e == IF Kind(w[i]) = "H" THEN i ELSE RunEnd(w, i)
         IN  << [at |-> i, kind |-> Kind(w[i]), s |-> SubSeq(w, i, e)] >> \o Runs(w, e + 1)

CheckZihevla(w, needZ, y, x, m) ==
    LET runs  == Runs(w, 1)
        R     == DOMAIN runs
        cons  == { k \in R : runs[k].kind = "C" }
        vows  == { k \in R : runs[k].kind = "V" }
        big   == { k \in cons : Len(runs[k].s) >= 2 }
        clus  == IF big = {} THEN 0 ELSE CHOOSE k \in big : \A j \in big : k <= j
        cpos  == IF clus = 0 THEN 0 ELSE runs[clus].at
        NCons(K) == Cardinality({ i \in DOMAIN w : w[i] \in C /\ \E k \in K : i >= runs[k].at /\ i < runs[k].at + Len(runs[k].s) })
        ncons == NCons(R)
        syl   == [ k \in vows |-> Syllables(runs[k].s) ]
        RECURSIVE Sum(_)
        Sum(K) == IF K = {} THEN 0 ELSE LET k == CHOOSE j \in K : TRUE IN Len(syl[k]) + Sum(K \ {k})
        nsyl  == Sum(vows)
        OnlyLetters == \A k \in R : runs[k].kind # "?"
        GoodApostrophes == \A k \in R : runs[k].kind = "H" =>
              /\ runs[k].at > 1 /\ w[runs[k].at - 1] \in V
              /\ runs[k].at < Len(w) /\ w[runs[k].at + 1] \in V
        \* vowels before a cluster take at most one consonant with them
        FewBefore == clus = 0 \/ NCons({ k \in R : k < clus }) <= 1
        \* until the first vowel, a cluster must be an initial pair
        GoodStart == 1 \in cons /\ Len(runs[1].s) >= 2 => InitialPair(Take(runs[1].s, 2))
        GoodPairs == \A k \in cons : \A i \in 1..(Len(runs[k].s) - 1) :
              ValidPair(<<runs[k].s[i], runs[k].s[i + 1]>>, m)
        GoodTriples == \A k \in cons : \A i \in 1..(Len(runs[k].s) - 2) :
              SubSeq(runs[k].s, i, i + 2) \notin BannedTriples
        GoodClusters == \A k \in cons :
              IF runs[k].at = 1 THEN ZihevlaInitial(runs[k].s) ELSE ZihevlaMiddle(runs[k].s)
        GoodVowels == \A k \in vows :
              /\ syl[k] # <<>>
              /\ ~(runs[k].at > 1 /\ syl[k][1] \in GlideSyllables)
              \* just a string of cmavo
              /\ ~( /\ clus = 0 \/ clus > k
                    /\ Len(syl[k]) >= 2
                    /\ k = Len(runs)
                    /\ (IF k = 1 THEN Last(w) ELSE runs[k - 1].s[1]) # H )
        \* a cmavo in front would leave a word
        FallsOff == /\ nsyl > 2 /\ cpos > 1
                    /\ \/ IsBrivlaD(DropN(w, cpos - 1), y, m)
                       \/ \E i \in 2..(cpos - 1) :
                            /\ w[i] \in C \/ Glide(DropN(w, i - 1))
                            /\ IsBrivlaD(DropN(w, i - 1), y, m)
        lastC == IF cons = {} THEN 1 ELSE runs[CHOOSE k \in cons : \A j \in cons : j <= k].at
    IN  IF needZ /\ Len(w) < 4 THEN "NO"
        ELSE IF ~(OnlyLetters /\ GoodApostrophes /\ FewBefore /\ GoodStart) THEN "NO"
        ELSE IF ~(GoodPairs /\ GoodTriples /\ GoodClusters /\ GoodVowels) THEN "NO"
        ELSE IF nsyl < 2 /\ (needZ \/ ~x) THEN "NO"
        ELSE IF FallsOff THEN "NO"
        ELSE IF clus = 0
        THEN IF needZ \/ (w[1] \notin C /\ ~x) \/ ncons > 1 \/ lastC > 1 THEN "NO" ELSE "RAFSI"
        ELSE IF ~(w[1] \in V /\ w[2] \in C) /\ Slinkuhi(w, y, m) THEN "NO" ELSE "ZIhEVLA"

-----------------------------------------------------------------------------
(* Part 8.  What kind of word (already normalised) this is, and its pieces. *)

NotBrivla == [t |-> "NotBrivlaError", d |-> <<>>]
IsBrivlaS(w, S) == Analyse(w, S).t \in {"GISMU", "ZIhEVLA", "LUJVO", "EXTENDED_LUJVO"}

LeadingVowels(w) ==
    LET n == CHOOSE k \in 0..Len(w) : (\A i \in 1..k : w[i] \in V) /\ (k = Len(w) \/ w[k + 1] \notin V)
    IN  Take(w, n)

\* One part between y hyphens.  st carries what is known of the word so far:
\*   d pieces, h hyphen letters not yet in d, cl a cluster has been seen,
\*   mah still a string of cmavo, cvc the part before was CVC, nc consonants
Part(w, parts, i, st, cme, S) ==
    LET n    == Len(parts)
        p0   == parts[i]
        bad  == [st EXCEPT !.bad = TRUE]
        h1   == IF i > 1 THEN Append(st.h, Y) ELSE st.h
        apo  == p0 # <<>> /\ p0[1] = H
        p1   == IF apo THEN Tail(p0) ELSE p0
        syl1 == Syllables(LeadingVowels(p1))
        h2   == IF apo THEN Append(h1, H) ELSE h1
        d1   == IF h2 # <<>> THEN Append(st.d, h2) ELSE st.d
    IN
    IF p0 = <<>> THEN bad
    ELSE IF apo /\ (p1 = <<>> \/ p1[1] \notin V \/ syl1 = <<>>) THEN bad
    ELSE IF apo /\ syl1[1] \in GlideSyllables THEN bad
    ELSE IF ~apo /\ i > 1 /\ p0[1] \in V /\ ~Glide(p0) THEN bad
    ELSE IF Shape(p1) = "CVC"
    THEN [st EXCEPT !.d = Append(d1, p1), !.h = <<>>, !.cvc = TRUE, !.nc = @ + 2]
    ELSE
    LET mah1  == st.mah /\ ~(i > 1 /\ (p1[1] \in C \/ Glide(p1)))
        cl1   == st.cl \/ (st.cvc /\ (p1[1] \in C \/ (S.g /\ Glide(p1))))
        endH  == Last(p1) = H
        addA  == ~endH /\ (i < n \/ cme)
        need  == IF endH THEN S.y = "STANDARD" /\ ~cl1 /\ i < n /\ Take(parts[i + 1], 1) # <<H>> ELSE addA
        bare  == IF endH THEN ButLast(p1) ELSE p1              \* part_copy
        part  == IF addA THEN Append(p1, "a") ELSE bare
        partA == Append(p1, "a")
        rafsi == ~(addA /\ Last(p1) \in V)                     \* may be a string of rafsi
        h3    == IF endH THEN <<H>> ELSE <<>>
        kk    == Pieces(bare, S.y, S.m)
        kaha  == rafsi /\ kk.ok
        found == IF kaha THEN kk.p ELSE <<part>>
        shp   == [ k \in DOMAIN found |-> Shape(found[k]) ]
        two   == IF rafsi THEN { k \in DOMAIN found : shp[k] \notin {"CVV", "CVhV", "OTHER"} } ELSE {}
        one   == IF rafsi THEN { k \in DOMAIN found : shp[k] \in {"CVV", "CVhV"} } ELSE {}
        cl2   == cl1 \/ two # {}
        nc2   == st.nc + Cardinality(one) + 2 * Cardinality(two)
        \* what is left when a leading cmavo falls off
        toLen == IF Shape(Take(part, 4)) = "CVhV" THEN 4
                 ELSE IF Shape(Take(part, 3)) = "CVV" THEN 3
                 ELSE IF Len(part) >= 2 /\ part[1] \in C /\ part[2] \in V THEN 2 ELSE 0
        left  == IF addA THEN ButLast(DropN(part, toLen)) ELSE Strip(DropN(part, toLen))
        tosmabru ==
            /\ i = 1 /\ ~cme /\ toLen > 0 /\ toLen < Len(part)
            /\ \/ ValidRafsi(left, S.m) /\ ~(Shape(left) = "CCV" /\ Len(p0) > toLen + 3 /\ p0[toLen + 4] = H)
               \/ left # <<>> /\ Jvokaha(left, Default(S.y, S.m)).ok
               \/ left # <<>> /\ IsBrivlaS(DropN(w, toLen), S)
        \* a leading CVV before a y with no cluster so far falls off too
        fallsY ==
            /\ Shape(part) \in {"CVV", "CVhV"} /\ need /\ ~cl2 /\ ~cme
            /\ S.y = "STANDARD" \/ ~(i = n - 1 /\ Shape(parts[2]) \in {"CVV", "CCV"})
    IN
    IF endH /\ (bare = <<>> \/ Last(bare) \notin V) THEN bad
    ELSE IF /\ rafsi /\ ~endH /\ ~IsGismu(LastN(partA, 5), S.m)
            /\ Analyse(partA, Default(S.y, S.m)).t = "LUJVO" THEN bad
    ELSE IF kaha /\ Len(kk.p) < 2 /\ ~ValidRafsi(kk.p[1], S.m) THEN bad
    ELSE IF kaha
    THEN IF fallsY \/ tosmabru THEN bad
         ELSE [st EXCEPT !.d = d1 \o kk.p, !.h = h3, !.cl = cl2, !.mah = mah1, !.cvc = FALSE, !.nc = nc2]
    ELSE
    LET z == CheckZihevla(part, need \/ ~S.x, S.y, S.x, S.m) IN
    IF z = "NO" THEN bad
    ELSE IF z = "ZIhEVLA" /\ addA /\ Pieces(part, S.y, S.m).ok THEN bad
    ELSE IF z = "ZIhEVLA" /\ addA /\ i = 1 /\ Slinkuhi(bare, S.y, S.m) THEN bad
    ELSE [st EXCEPT !.d = Append(d1, bare), !.h = h3, !.cl = cl2 \/ z = "ZIhEVLA", !.mah = mah1, !.cvc = FALSE,
                    !.nc = nc2 + (IF part[1] \in C \/ (S.g /\ Glide(part)) THEN 1 ELSE 0)]

RECURSIVE Walk(_, _, _, _, _, _)
Walk(w, parts, i, st, cme, S) ==
    IF st.bad \/ i > Len(parts) THEN st ELSE Walk(w, parts, i + 1, Part(w, parts, i, st, cme, S), cme, S)

Extended(w, cme, S) ==
    LET st == Walk(w, SplitY(w), 1,
                   [d |-> <<>>, h |-> <<>>, cl |-> FALSE, mah |-> TRUE, cvc |-> FALSE, nc |-> 0, bad |-> FALSE], cme, S)
    IN
    IF st.bad THEN NotBrivla
    ELSE IF ~st.cl /\ ~cme /\ (\/ S.c = "CLUSTER"
                               \/ S.c = "TWO_CONSONANTS" /\ st.nc < 2
                               \/ S.c = "ONE_CONSONANT" /\ st.nc < 1
                               \/ st.mah) THEN NotBrivla
    ELSE IF ~(w[1] \in V /\ w[2] \in C \cup {Y}) /\ Slinkuhi(w, S.y, S.m) THEN NotBrivla
    ELSE [t |-> IF cme THEN "CMEVLA" ELSE "EXTENDED_LUJVO", d |-> st.d]

Analyse(w, S) ==
    IF w = <<>> \/ Last(w) \notin V \cup C THEN NotBrivla
    ELSE
    LET cme == Last(w) \in C IN
    IF cme /\ IsGismu(Append(w, "a"), S.m) THEN NotBrivla
    ELSE IF ~cme /\ IsGismu(w, S.m) THEN [t |-> "GISMU", d |-> <<w>>]
    ELSE
    LET k == Jvokaha(w, S) IN
    IF k.ok THEN [t |-> IF cme THEN "CMEVLA" ELSE "LUJVO", d |-> k.p]
    ELSE IF k.err = "N" \/ w[1] \notin V \cup C THEN NotBrivla
    ELSE IF Y \notin { w[i] : i \in DOMAIN w }
    THEN IF ~cme /\ CheckZihevla(w, TRUE, S.y, S.x, S.m) # "NO" THEN [t |-> "ZIhEVLA", d |-> <<w>>] ELSE NotBrivla
    ELSE Extended(w, cme, S)

\* Of a word as written
AnalyseBrivla(s, S) == Analyse(Normalise(s), S)

-----------------------------------------------------------------------------
(* Part 9.  Components of a tanru, and building a lujvo from them. *)

OnlyLojban(w) == w # <<>> /\ \A i \in DOMAIN w : w[i] \in V \cup C \cup {H}

RECURSIVE StripDash(_)
StripDash(w) ==
    IF w # <<>> /\ w[1] = "-" THEN StripDash(Tail(w))
    ELSE IF w # <<>> /\ Last(w) = "-" THEN StripDash(ButLast(w)) ELSE w

Ok(fs) == [ok |-> TRUE, fs |-> fs]
AnalyseC(w, S) == Analyse(Normalise(w), Default(S.y, S.m))
AnalyseX(w, S) == Analyse(Normalise(w), [y |-> S.y, x |-> S.x, c |-> "CLUSTER", g |-> FALSE, m |-> S.m])

\* "mlat-": a brivla without its last vowel
ShortBrivla(v, first, last, S) ==
    LET t == AnalyseX(Append(v, "a"), S).t IN
    IF t \notin {"GISMU", "ZIhEVLA"} THEN Failed("NoLujvoFoundError")
    ELSE IF Len(v) >= 6 /\ Last(v) \in C /\ Pieces(v, S.y, S.m).ok THEN Failed("NoLujvoFoundError")
    ELSE IF first /\ t = "ZIhEVLA" /\ Slinkuhi(v, S.y, S.m)
    THEN Failed("NoLujvoFoundError")
    ELSE Ok(Forms(v, "SHORT BRIVLA", first, last, S))

\* "-lat-": a rafsi, or a zi'evla used whole
GivenRafsi(v, first, last, S) ==
    LET s == Shape(v) IN
    IF s # "OTHER"
    THEN IF ValidRafsi(v, S.m) THEN Ok(Forms(v, s, first, last, S)) ELSE Failed("InvalidClusterError")
    ELSE LET t == AnalyseX(v, S).t IN
         IF t = "ZIhEVLA" THEN Ok(Forms(v, "LONG BRIVLA", first, last, S))
         ELSE IF t = "NotBrivlaError" /\ S.x
         THEN LET z == CheckZihevla(v, FALSE, S.y, S.x, S.m) IN
              IF z = "NO" THEN Failed("NoLujvoFoundError")
              ELSE IF z = "RAFSI" THEN Ok(Forms(v, "EXPERIMENTAL RAFSI", first, last, S))
              ELSE Failed("NotZihevlaError")
         ELSE Failed("NotZihevlaError")

\* "mlatu": a word, by its assigned rafsi and in its short and long forms
RECURSIVE AllForms(_, _, _, _, _)
AllForms(rs, i, first, last, S) ==
    IF i > Len(rs) THEN <<>> ELSE Forms(rs[i], Shape(rs[i]), first, last, S) \o AllForms(rs, i + 1, first, last, S)
GivenWord(v, first, last, S) ==
    LET t == AnalyseX(v, S).t IN
    Ok( AllForms(ShortRafsi(v), 1, first, last, S)
        \o (IF t = "GISMU" THEN Forms(ButLast(v), "SHORT BRIVLA", first, last, S) ELSE <<>>)
        \o (IF t \in {"GISMU", "ZIhEVLA"} THEN Forms(v, "LONG BRIVLA", first, last, S) ELSE <<>>) )

Component(c, first, last, S) ==
    IF c # <<>> /\ Last(c) = "-"
    THEN LET v == StripDash(c) IN
         IF ~OnlyLojban(v) \/ Last(v) = H THEN Failed("NonLojbanCharacterError")
         ELSE IF c[1] # "-" THEN ShortBrivla(v, first, last, S)
         ELSE GivenRafsi(v, first, last, S)
    ELSE IF ~OnlyLojban(c) THEN Failed("NonLojbanCharacterError")
    ELSE GivenWord(c, first, last, S)

RECURSIVE Components(_, _, _, _)
Components(cs, i, S, acc) ==
    IF i > Len(cs) THEN [ok |-> TRUE, fss |-> acc]
    ELSE LET k == Component(Normalise(cs[i]), i = 1, i = Len(cs), S) IN
         IF k.ok THEN Components(cs, i + 1, S, Append(acc, k.fs)) ELSE k

\* The lujvo for a tanru: [ok, w, sc, ix] or the error that is raised.
LujvoFrom(k, cm, S) ==
    LET b == BestOf(k.fss, cm, S)
    IN  IF ~k.ok THEN k
        ELSE IF b.ok /\ S.x /\ Analyse(b.w, S).t = "NotBrivlaError" THEN Failed("NoLujvoFoundError")
        ELSE b
GetLujvo(tanru, cm, S) == LujvoFrom(Components(tanru, 1, S, <<>>), cm, S)

-----------------------------------------------------------------------------
(* Part 10.  Reading a lujvo. *)

HyphenPieces == { <<"r">>, <<"n">>, <<Y>>, <<H, Y>>, <<Y, H>>, <<H, Y, H>> }

RECURSIVE IndicesFrom(_, _, _)
IndicesFrom(d, i, pos) ==
    IF i > Len(d) THEN <<>>
    ELSE (IF d[i] \in HyphenPieces THEN <<>> ELSE << <<pos, pos + Len(d[i])>> >>)
         \o IndicesFrom(d, i + 1, pos + Len(d[i]))
Indices(d) == IndicesFrom(d, 1, 0)

\* What the piece d[i] stands for
Meaning(d, i, S) ==
    LET r == d[i]
        sel == Selrafsi(r)
        Brivla(w) == IsBrivlaD(w, S.y, S.m)
    IN  IF sel # <<>> THEN sel
        ELSE IF i < Len(d) - 1 /\ d[i + 1][1] = Y /\ Brivla(Append(r, "a")) THEN Append(r, "-")
        ELSE IF Brivla(r) THEN r
        ELSE IF i = Len(d) /\ Brivla(Append(r, "a")) THEN Append(r, "-")
        ELSE <<"-">> \o r \o <<"-">>

RECURSIVE MeaningsFrom(_, _, _)
MeaningsFrom(d, i, S) ==
    IF i > Len(d) THEN <<>>
    ELSE (IF d[i] \in HyphenPieces THEN <<>> ELSE << Meaning(d, i, S) >>) \o MeaningsFrom(d, i + 1, S)
Meanings(d, S) == MeaningsFrom(d, 1, S)

\* [ok, v] or the error that is raised
GetVeljvo(s, S) ==
    LET a == AnalyseBrivla(s, S) IN
    IF a.t = "NotBrivlaError" THEN Failed("NotBrivlaError")
    ELSE IF a.t \in {"GISMU", "ZIhEVLA"} THEN Failed("DecompositionError")
    ELSE [ok |-> TRUE, v |-> Meanings(a.d, S)]

ScoreLujvo(s, S) ==
    LET a == AnalyseBrivla(s, S) IN
    IF a.t = "NotBrivlaError" THEN Failed("NotBrivlaError")
    ELSE IF a.t \in {"GISMU", "ZIhEVLA"} THEN Failed("DecompositionError")
    ELSE [ok |-> TRUE, sc |-> SumScore(a.d) - Tiebreak(Concat(a.d))]

IsBrivla(s, S) == AnalyseBrivla(s, S).t \in {"GISMU", "ZIhEVLA", "LUJVO", "EXTENDED_LUJVO"}

IsGismuOrLujvo(w, y, m) ==
    /\ Len(w) >= 5 /\ Last(w) \in V
    /\ IsGismu(w, m) \/ Jvokaha(w, Default(y, m)).ok

=============================================================================
