--------------------------------- MODULE Laws ----------------------------------
(***************************************************************************)
(* The properties, stated on what is observed of one call or of a few      *)
(* related calls.  A word is a sequence of letters, S is a settings        *)
(* record, a type is a string; everything observed is a plain value.       *)
(*                                                                         *)
(* The laws that say "exactly" compare with the behaviour defined in       *)
(* Jvotci; the others do not need it.                                      *)
(***************************************************************************)
EXTENDS Jvotci, Grammar

BrivlaTypes == {"GISMU", "ZIhEVLA", "LUJVO", "EXTENDED_LUJVO"}
LujvoTypes  == {"LUJVO", "EXTENDED_LUJVO", "CMEVLA"}
Accepted(t) == t \in BrivlaTypes \cup {"CMEVLA"}

Base(S) == Default(S.y, S.m)

-----------------------------------------------------------------------------
(* C01 *)
BuiltIsValid(w, cm, S, at) ==
    LET good == IF cm THEN {"CMEVLA"} ELSE {"LUJVO", "EXTENDED_LUJVO"} IN
    /\ w # <<>>
    /\ Last(w) \in (IF cm THEN C ELSE V)
    /\ at \in good
    /\ Analyse(w, S).t \in good

(* C02: a component c (as given, normalised) and what decomposing reports. *)
Bare(c) == StripDash(c)
SameStem(u, v) == Len(u) = 5 /\ Len(v) = 5 /\ Take(u, 4) = Take(v, 4)
Word(c) == c # <<>> /\ Last(c) # "-"
\* A rafsi or short form that was given: its owner, or itself with the dashes that show what it is.
GivenBack(c, b) ==
    IF Selrafsi(b) # <<>> THEN Selrafsi(b)
    ELSE IF c[1] # "-" \/ Shape(b) \in {"CVCC", "CCVC"} THEN b \o <<"-">>
    ELSE IF \E i \in 1..(Len(b) - 1) : b[i] \in C /\ b[i + 1] \in C /\ Shape(b) # "CCV" THEN b
    ELSE <<"-">> \o b \o <<"-">>
ReadBack(c, v) ==
    LET b == Bare(c) IN
    \/ v = c
    \/ Word(c) /\ ~(IsGismu(c, TRUE) /\ ~Listed(c)) /\ SameStem(c, v) /\ IsGismu(c, TRUE) /\ Listed(v)
    \/ Word(c) /\ IsGismu(c, TRUE) /\ (~Listed(c) \/ Take(c, 4) = Chars("brod"))
         /\ (v = Take(c, 4) \o <<"-">> \/ SameStem(c, v))
    \/ ~Word(c) /\ v = GivenBack(c, b)
ReadsBack(t, v) == Len(v) = Len(t) /\ \A i \in DOMAIN t : ReadBack(t[i], v[i])

(* C04 *)
ScoreLaw(w, d) == SumScore(d) - Tiebreak(Concat(d))

(* C05 *)
SpansLaw(w, ix, d, n) ==
    /\ ix = Indices(d)
    /\ Len(ix) = n
    /\ Concat(d) = w
HyphenLetters == {"r", "n", Y, H}
CutLaw(w, ix) ==
    /\ \A i \in DOMAIN ix : ix[i][1] < ix[i][2] /\ ix[i][2] <= Len(w) /\ 0 <= ix[i][1]
    /\ \A i \in DOMAIN ix : i > 1 => /\ ix[i - 1][2] <= ix[i][1]
                                     /\ \A p \in (ix[i - 1][2] + 1)..ix[i][1] : w[p] \in HyphenLetters
    /\ ix # <<>> /\ ix[1][1] = 0 /\ ix[Len(ix)][2] = Len(w)

(* C06 *)
PiecesLaw(w, t, d) ==
    /\ Concat(d) = w
    /\ d # <<>>
    /\ \A i \in DOMAIN d : d[i] # <<>>
    /\ \A i \in DOMAIN d : d[i] \in HyphenPieces =>
          /\ 1 < i /\ i < Len(d)
          /\ d[i - 1] \notin HyphenPieces /\ d[i + 1] \notin HyphenPieces
    /\ \A i \in DOMAIN d : d[i] \notin HyphenPieces => Strip(d[i]) = d[i] /\ \A j \in DOMAIN d[i] : d[i][j] # Y
    /\ t \in {"GISMU", "ZIhEVLA"} <=> Len(d) = 1

(* C10: tl holds <<letters cut off, type of the rest, type of the rest in  *)
(* the reference grammar>>.  A rest that begins with a vowel is spoken with *)
(* a pause before it, so nothing falls off there; one that begins with an   *)
(* on-glide counts, except where rafsi of experimental shape make it one of *)
(* them.                                                                    *)
NothingFallsOff(w, t, tl, S) ==
    t \in BrivlaTypes =>
       \A i \in DOMAIN tl :
          LET rest == DropN(w, tl[i][1]) IN
          rest[1] \in C \/ (Glide(rest) /\ ~S.x) =>
             /\ tl[i][2] \notin BrivlaTypes /\ tl[i][3] \notin BrivlaTypes
             /\ ~IsBrivlaS(rest, S) /\ ~IsBrivlaS(rest, Base(S))

(* C11 *)
NoSlinkuhi(w, t, cv, to, S) ==
    t \in BrivlaTypes /\ w[1] \in C =>
       /\ to # "LUJVO"
       /\ Analyse(cv \o w, Base(S)).t # "LUJVO"

(* C12 *)
Phonotactic(w, S) ==
    /\ \A i \in 1..(Len(w) - 1) : w[i] \in C /\ w[i + 1] \in C => ValidPair(<<w[i], w[i + 1]>>, S.m)
    /\ \A i \in 1..(Len(w) - 2) : SubSeq(w, i, i + 2) \notin BannedTriples
    /\ Len(w) >= 2 /\ w[1] \in C /\ w[2] \in C => InitialPair(Take(w, 2))
    /\ \A i \in DOMAIN w : w[i] \in V \cup C \cup {H, Y}
    /\ \A i \in DOMAIN w : w[i] = H => 1 < i /\ i < Len(w) /\ w[i - 1] \in V \cup {Y} /\ w[i + 1] \in V \cup {Y}
    /\ \A i \in DOMAIN w : w[i] = Y => 1 < i /\ i < Len(w) /\ w[i - 1] # Y

(* C16: ts and ds over all settings; the y-hyphen rule varies fastest, then *)
(* experimental rafsi, the consonant rule, glides, mz.                      *)
YNames == <<"STANDARD", "ALLOW_Y", "FORCE_Y">>
CNames == <<"CLUSTER", "TWO_CONSONANTS", "ONE_CONSONANT">>
At(y, x, c, g, m) == 1 + (y - 1) + 3 * (x + 2 * ((c - 1) + 3 * (g + 2 * m)))
HasMz(w) ==
    \/ \E i \in 1..(Len(w) - 1) : w[i] = "m" /\ w[i + 1] = "z"
    \/ \E i \in 1..(Len(w) - 2) : w[i] = "m" /\ w[i + 1] = Y /\ w[i + 2] = "z"
Gating(w, ts, ds) ==
    LET T(y, x, c, g, m) == ts[At(y, x, c, g, m)]
        D(y, x, c, g, m) == ds[At(y, x, c, g, m)]
        \* from value p to value q: what was accepted stays, what is new has one of the types
        Adds(p, q, types) == IF Accepted(ts[p]) THEN ts[q] = ts[p] /\ ds[q] = ds[p] ELSE ts[q] \in types \cup {"NotBrivlaError"}
        YR == 1..3  CR == 1..3  B == 0..1
        Ext == {"EXTENDED_LUJVO", "CMEVLA"}
    IN  /\ \A y \in YR, c \in CR, g \in B, m \in B : Adds(At(y, 0, c, g, m), At(y, 1, c, g, m), Ext)
        /\ \A y \in YR, c \in 1..2, x \in B, g \in B, m \in B : Adds(At(y, x, c, g, m), At(y, x, c + 1, g, m), Ext \cup {"LUJVO"})
        /\ \A y \in YR, c \in CR, x \in B, m \in B : Adds(At(y, x, c, 0, m), At(y, x, c, 1, m), Ext)
        /\ \A y \in YR, x \in B, c \in CR, g \in B :
              /\ Accepted(T(y, x, c, g, 0)) => Accepted(T(y, x, c, g, 1))
              /\ ~HasMz(w) => T(y, x, c, g, 0) = T(y, x, c, g, 1) /\ D(y, x, c, g, 0) = D(y, x, c, g, 1)
        /\ \A m \in B : LET gi == { i \in 1..36 : ts[36 * m + i] = "GISMU" } IN gi = {} \/ gi = 1..36
        /\ \A y \in YR, m \in B :
              LET zi == { <<x, c, g>> \in B \X CR \X B : T(y, x, c, g, m) = "ZIhEVLA" } IN zi = {} \/ zi = B \X CR \X B

(* C20 *)
Agreement(w, S, t, d, b, ve, v, se, sc, ie, ix, gl, base) ==
    /\ b = (IF t \in BrivlaTypes THEN "yes" ELSE "no")
    /\ t \in LujvoTypes =>
          /\ ve = "" /\ se = "" /\ ie = ""
          /\ Len(v) = Cardinality({ i \in DOMAIN d : d[i] \notin HyphenPieces })
          /\ Len(ix) = Len(v)
          /\ sc = SumScore(d) - Tiebreak(Concat(d))
    /\ t \in {"GISMU", "ZIhEVLA"} => ve = "DecompositionError" /\ se = "DecompositionError"
    /\ ~Accepted(t) => ve = t /\ se = t
    /\ gl = (IF base \in {"GISMU", "LUJVO"} THEN "yes" ELSE "no")

(* C21: among the forms of each component that leave the given rafsi, the   *)
(* joining rules allow the word w and prefer it.                            *)
RafsiOf(w, ix) == [ i \in DOMAIN ix |-> SubSeq(w, ix[i][1] + 1, ix[i][2]) ]
Narrow(fss, rs) ==
    SubSeq([ i \in DOMAIN fss |-> SelectSeq(fss[i], LAMBDA f : Strip(f.f) = rs[i]) ], 1, Len(fss))
HyphensLaw(t, cm, w, ix, S) ==
    LET k == Components(t, 1, S, <<>>)
        b == BestOf(Narrow(k.fss, RafsiOf(w, ix)), cm, S)
    IN  /\ k.ok
        /\ Len(ix) = Len(t)
        /\ b.ok
        /\ b.w = w
\* Said by the grammar alone: in a lujvo of plain rafsi every hyphen is needed and none is missing.
GapsOf(w, ix) == SubSeq([ i \in DOMAIN ix |-> IF i = Len(ix) THEN <<>> ELSE SubSeq(w, ix[i][2] + 1, ix[i + 1][1]) ], 1, Len(ix))
Lean(w, cm, ix, S) ==
    LET rs == RafsiOf(w, ix)
        hs == GapsOf(w, ix)
        q  == SubSeq([ i \in DOMAIN rs |-> <<rs[i], hs[i]>> ], 1, Len(rs))
        plain == /\ \A i \in DOMAIN rs : ValidRafsi(rs[i], S.m) /\ Shape(rs[i]) \in (IF i = Len(rs) THEN EndShapes(cm) ELSE InnerShapes)
    IN  plain => \A k \in 1..(Len(q) - 1) :
            /\ GoodHyphen(q, k, cm, S.y, S.m)
            /\ Vowels(rs[k]) /\ (k > 1 \/ cm \/ ~Needed(q)) => hs[k] = <<>>

(* C22 *)
Refusal(t, S, e) ==
    LET k == Components(t, 1, S, <<>>) IN
    IF k.ok THEN e \in {"", "NoLujvoFoundError"} ELSE e = k.err

(* C18 *)
UsesAssigned(t, w, ix) ==
    /\ Len(ix) = Len(t)
    /\ \A i \in DOMAIN ix :
          Word(t[i]) =>   \* a word that is not listed has none
             LET r == SubSeq(w, ix[i][1] + 1, ix[i][2])
                 assigned == { ShortRafsi(t[i])[j] : j \in DOMAIN ShortRafsi(t[i]) }
             IN  r \in assigned \/ r = t[i] \/ (Len(t[i]) = 5 /\ r = Take(t[i], 4))
Owned(r, v, i) == Len(v) >= i /\ (Selrafsi(r) # <<>> => v[i] = Selrafsi(r))

(* C14 *)
AllowedErrors(f) ==
    CASE f \in {"lujvo", "lujvo_str", "analytics"} ->
            {"", "NoLujvoFoundError", "NonLojbanCharacterError", "InvalidClusterError", "NotZihevlaError"}
      [] f = "analyse" -> {"", "NotBrivlaError"}
      [] f \in {"veljvo", "score"} -> {"", "NotBrivlaError", "DecompositionError"}
      [] OTHER -> {""}
=============================================================================
