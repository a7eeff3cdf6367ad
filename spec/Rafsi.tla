------------------------------- MODULE Rafsi --------------------------------
(***************************************************************************)
(* The dictionary of assigned rafsi.  rafsi.json is this specification's   *)
(* own copy: the order of its rows is the order in which a word is looked  *)
(* up, and a row's rafsi are in order of preference.                       *)
(***************************************************************************)
EXTENDS Tarmi, Json

RafsiRows == JsonDeserialize("rafsi.json")

DictWords == { RafsiRows[i].w : i \in DOMAIN RafsiRows }

\* Buckets by first letter keep lookups short.
WordMap == [ c \in V \cup C |->
    LET rows == { i \in DOMAIN RafsiRows : SubSeq(RafsiRows[i].w, 1, 1) = c }
    IN  [ w \in { Chars(RafsiRows[i].w) : i \in rows } |->
            LET i == CHOOSE k \in rows : Chars(RafsiRows[k].w) = w
            IN  [ j \in DOMAIN RafsiRows[i].r |-> Chars(RafsiRows[i].r[j]) ] ] ]

OwnerMap == [ c \in V \cup C |->
    LET rows == { i \in DOMAIN RafsiRows : \E j \in DOMAIN RafsiRows[i].r : SubSeq(RafsiRows[i].r[j], 1, 1) = c }
        rs   == { r \in UNION { { Chars(RafsiRows[i].r[j]) : j \in DOMAIN RafsiRows[i].r } : i \in rows } : r[1] = c }
    IN  [ r \in rs |->
            LET own == { i \in rows : \E j \in DOMAIN RafsiRows[i].r : Chars(RafsiRows[i].r[j]) = r }
            IN  Chars(RafsiRows[CHOOSE i \in own : \A k \in own : i <= k].w) ] ]

Listed(w)     == w # <<>> /\ w[1] \in V \cup C /\ w \in DOMAIN WordMap[w[1]]
ShortRafsi(w) == IF Listed(w) THEN WordMap[w[1]][w] ELSE <<>>

\* The word a rafsi stands for, or <<>>.  A four-letter rafsi is a gismu
\* without its last vowel; brod- stands for five gismu, so for none.
Selrafsi(r) ==
    LET full == { v \in V : Listed(Append(r, v)) }
        v1   == CHOOSE v \in full : \A u \in full :
                    (CHOOSE i \in 1..5 : <<"a","e","i","o","u">>[i] = v)
                    <= (CHOOSE i \in 1..5 : <<"a","e","i","o","u">>[i] = u)
    IN  IF r = <<>> THEN <<>>
        ELSE IF Len(r) = 4 /\ r # Chars("brod") /\ H \notin {r[i] : i \in 1..4} /\ full # {}
        THEN Append(r, v1)
        ELSE IF r[1] \in V \cup C /\ r \in DOMAIN OwnerMap[r[1]] THEN OwnerMap[r[1]][r]
        ELSE <<>>

=============================================================================
