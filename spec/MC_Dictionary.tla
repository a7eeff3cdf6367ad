----------------------------- MODULE MC_Dictionary -----------------------------
(***************************************************************************)
(* Dictionaries that grow entry by entry.  With Emit those of Depth        *)
(* entries are printed, for running the generator on them.                 *)
(***************************************************************************)
EXTENDS Dictionary, Json

CONSTANTS Words, Depth, Emit

Kinds == [ w \in { "mlatu", "mlate", "zbani", "bau", "ba'u", "mlabau", "jicfo" } |->
    CASE w = "mlatu" -> {"gismu"} [] w \in {"mlate", "jicfo"} -> {"gismu", "experimental gismu"} [] w = "zbani" -> {"experimental gismu"}
      [] w = "bau" -> {"cmavo"} [] w = "ba'u" -> {"experimental cmavo"} [] w = "mlabau" -> {"lujvo"} ]
Given == { <<>>, <<"mla">>, <<"lat">>, <<"lat", "mla">> }
Noted == { <<>>, <<"mla">>, <<"lat", "mla">>, <<"lba">>, <<"cfo">> }
Entry(w, t, r, says, p) == [w |-> w, t |-> t, r |-> r, says |-> says, p |-> p]
Letters(e) == [e EXCEPT !.w = Chars(@), !.r = SubSeq([ i \in DOMAIN @ |-> Chars(@[i]) ], 1, Len(@)), !.p = SubSeq([ i \in DOMAIN @ |-> Chars(@[i]) ], 1, Len(@))]
\* silent notes matter once
Entries == { Entry(w, t, r, TRUE, p) : w \in Words, t \in UNION { Kinds[x] : x \in Words }, r \in Given, p \in Noted }
           \cup { Entry(w, t, r, FALSE, <<"mla">>) : w \in Words, t \in UNION { Kinds[x] : x \in Words }, r \in Given }
Usable == { e \in Entries : e.t \in Kinds[e.w] }

VARIABLES d, T
vars == <<d, T>>
Dict(x) == SubSeq([ i \in DOMAIN x |-> Letters(x[i]) ], 1, Len(x))
Init == d = <<>> /\ T = TableFor(<<>>)
Next == /\ Len(d) < Depth
        /\ \E e \in Usable : /\ \A i \in DOMAIN d : d[i].w # e.w
                             /\ d' = Append(d, e)
                             /\ T' = TableFor(Dict(d'))
Spec == Init /\ [][Next]_vars

\* Every official gismu and assigned rafsi is in the table.
Complete == \A i \in DOMAIN d : LET e == Dict(d)[i] IN
    /\ e.t = "gismu" => e.w \in DOMAIN T
    /\ e.t = "experimental gismu" => e.w \in DOMAIN T \/ \E j \in DOMAIN d : d[j].t = "gismu" /\ First4(Chars(d[j].w)) = First4(e.w)
    /\ e.t \in Cmavo \cup {"gismu"} => (e.r # <<>> => e.w \in DOMAIN T /\ Range(e.r) \subseteq T[e.w])
\* A word has only what it was given.
Sound == \A w \in DOMAIN T : T[w] \subseteq HandFor(w) \cup UNION { Range(Dict(d)[i].r) \cup Range(Dict(d)[i].p) : i \in { j \in DOMAIN d : Chars(d[j].w) = w } }
\* Rafsi by hand stay.
Kept == \A w \in DOMAIN ByHand : w \in DOMAIN T /\ ByHand[w] \subseteq T[w]
\* What is only proposed is nobody's assigned rafsi.
Yields == \A w \in DOMAIN T : \A r \in T[w] :
    (\E i \in Counted(Dict(d)) : Dict(d)[i].w # w /\ r \in Range(Dict(d)[i].r))
    => r \in HandFor(w) \/ \E i \in Counted(Dict(d)) : Dict(d)[i].w = w /\ r \in Range(Dict(d)[i].r)
\* Only words of these kinds have rows, and no two gismu that look alike unless both are official or neither is.
Rows == \A w \in DOMAIN T \ DOMAIN ByHand : \E i \in DOMAIN d :
    /\ Chars(d[i].w) = w /\ d[i].t \in Cmavo \cup Gismu
    /\ d[i].t = "experimental gismu" => \A j \in DOMAIN d : d[j].t = "gismu" => First4(Chars(d[j].w)) # First4(w)
\* A new entry adds rows of its own only, and takes away only what it is assigned or, if a gismu, words that look like it.
Local == [][LET e == Dict(d')[Len(d')] IN
            /\ \A w \in DOMAIN T' : w \in DOMAIN T \/ w = e.w
            /\ \A w \in DOMAIN T \ {e.w} :
                 IF w \in DOMAIN T' THEN T[w] \ T'[w] \subseteq Range(e.r)  \/ (e.t = "gismu" /\ w = e.w)
                 ELSE (e.t = "gismu" /\ First4(w) = First4(e.w)) \/ T[w] \subseteq Range(e.r)]_vars
Printed == ~Emit \/ Len(d) < Depth \/ PrintT(<<"HIST", ToJson(d)>>)
=============================================================================
