------------------------------ MODULE Dictionary -------------------------------
(***************************************************************************)
(* What the generator of the tables (make_rafsi_list.py) makes of a        *)
(* dictionary, a sequence of entries [w, t, r, says, p]: a word, its kind, *)
(* the rafsi it is assigned, whether its notes speak of rafsi at all, and  *)
(* what stands between dashes in them.                                     *)
(***************************************************************************)
EXTENDS Tarmi

First4(w) == SubSeq(w, 1, IF Len(w) < 4 THEN Len(w) ELSE 4)
Range(s) == { s[i] : i \in DOMAIN s }

\* Rafsi that some words have whatever the dictionary says.
ByHand == [ w \in { Chars(x) : x \in {"xi", "ditcu", "jidge", "ronci", "supso", "zai'e", "gelse", "tsako", "kilma", "jicfo", "fizbu",
                                      "je'ebzi", "mu'umgu", "va'arga"} } |->
    LET is(x) == w = Chars(x) IN
    IF is("gelse") THEN { Chars("ge'e"), Chars("ges") }
    ELSE { Chars(CASE is("xi") -> "xix" [] is("ditcu") -> "dit" [] is("jidge") -> "jid" [] is("ronci") -> "roc" [] is("supso") -> "sus"
             [] is("zai'e") -> "zam" [] is("tsako") -> "tso" [] is("kilma") -> "kim" [] is("jicfo") -> "cfo" [] is("fizbu") -> "zbu"
             [] is("je'ebzi") -> "jeb" [] is("mu'umgu") -> "mug" [] is("va'arga") -> "va'a") } ]
HandFor(w) == IF w \in DOMAIN ByHand THEN ByHand[w] ELSE {}

Gismu == {"gismu", "experimental gismu"}
Cmavo == {"cmavo", "experimental cmavo"}
\* Experimental gismu may not look like official ones.
Counted(D) ==
    LET taken == { First4(D[i].w) : i \in { j \in DOMAIN D : D[j].t = "gismu" } } IN
    { i \in DOMAIN D : D[i].t \in Cmavo \cup Gismu /\ (D[i].t = "experimental gismu" => First4(D[i].w) \notin taken) }

Possible(r) == r[2] \in C => InitialPair(<<r[1], r[2]>>)

\* The table: rafsi of every word that has any, and of every gismu.  Assigned rafsi cannot be proposed for other words.
TableFor(D) ==
    LET at == Counted(D)
        own(w) == HandFor(w) \cup UNION { Range(D[i].r) : i \in { j \in at : D[j].w = w } }
        taken == UNION { Range(D[i].r) : i \in at } \cup UNION { ByHand[w] : w \in DOMAIN ByHand }
        new(w) == UNION { { r \in Range(D[i].p) : Possible(r) } : i \in { j \in at : D[j].w = w /\ D[j].says } } \ taken
        all(w) == own(w) \cup new(w)
        words == { D[i].w : i \in at } \cup DOMAIN ByHand
        gismu == { D[i].w : i \in { j \in at : D[j].t \in Gismu } }
    IN  [ w \in { x \in words : x \in gismu \/ all(x) # {} } |-> all(w) ]

\* The order in a row: by shape, as the score prefers the later ones; anything else first.
Rank(r) == IF Shape(r) = "OTHER" THEN 0 ELSE ShapeNo[Shape(r)]
InOrder(row) == \A i \in 1..Len(row) - 1 : Rank(row[i]) <= Rank(row[i + 1])
\* A list of rows <<word, rafsi>> tells a table.
Tells(rows, T) ==
    /\ Len(rows) = Cardinality(DOMAIN T)
    /\ { rows[i][1] : i \in DOMAIN rows } = DOMAIN T
    /\ \A i \in DOMAIN rows : LET row == rows[i][2] IN Range(row) = T[rows[i][1]] /\ Len(row) = Cardinality(Range(row)) /\ InOrder(row)
=============================================================================
