-------------------------------- MODULE Exports --------------------------------
(***************************************************************************)
(* Checks recorded runs of the generator of the tables (C34): from a       *)
(* dictionary it writes four files, and what their languages read in them  *)
(* is the table for the dictionary (Dictionary).                           *)
(***************************************************************************)
EXTENDS Dictionary, Json

CONSTANTS TraceFile, Prop, From

Trace == ndJsonDeserialize(TraceFile)

VARIABLES l, broken
vars == <<l, broken>>

Unless(ok, name) == IF ok THEN {} ELSE {name}
Strings(ss) == SubSeq([ i \in DOMAIN ss |-> Chars(ss[i]) ], 1, Len(ss))
Entries(D) == SubSeq([ i \in DOMAIN D |-> [D[i] EXCEPT !.w = Chars(@), !.r = Strings(@), !.p = Strings(@)] ], 1, Len(D))
Rows(rows) == SubSeq([ i \in DOMAIN rows |-> << Chars(rows[i][1]), Strings(rows[i][2]) >> ], 1, Len(rows))
Files == {"py", "ts", "js", "rs"}

Faults(r) ==
    IF r.err # "" THEN {"fails"}
    ELSE LET T == TableFor(Entries(r.D)) IN
         UNION { Unless(r.read[f] /\ Tells(Rows(r.rows[f]), T), f) : f \in Files }
         \cup Unless(\A f \in {"ts", "js"} : r.rows[f] = r.rows["py"], "the same rows")
         \cup Unless(Len(r.rows["rs"]) = Len(r.rows["py"])
                     /\ \A i \in DOMAIN r.rows["rs"] : \E j \in DOMAIN r.rows["py"] : r.rows["rs"][i] = r.rows["py"][j], "the same lists")
         \cup Unless(r.same, "depends on the dictionary only")

Init == l = From /\ broken = 0
Next == /\ l < Len(Trace)
        /\ LET f == Faults(Trace[l + 1]) IN
             /\ l' = l + 1
             /\ broken' = broken + Cardinality(f)
             /\ IF f = {} THEN TRUE ELSE PrintT(<<"FAIL", l + 1, f>>)
Spec == Init /\ [][Next]_vars
=============================================================================
