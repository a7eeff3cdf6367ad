------------------------------- MODULE MC_Table --------------------------------
(***************************************************************************)
(* Every function from the combinations of a few options to two results:   *)
(* its table tells the result of every combination, says every choice once *)
(* and has no setting on which nothing depends.                            *)
(***************************************************************************)
EXTENDS Table, TLC

CONSTANTS Which     \* the shapes that are explored, by number

Shapes == << <<1>>, <<3>>, <<2, 2>>, <<3, 2>>, <<2, 1, 3>>, <<2, 2, 2>>, <<3, 2, 2>>, <<1, 2, 3, 2>>, <<2, 2, 2, 2>> >>
OptsOf(h) == [ i \in DOMAIN Shapes[h] |-> [ p \in 1..Shapes[h][i] |-> p ] ]
NamesOf(h) == [ i \in DOMAIN Shapes[h] |-> [ p \in 1..Shapes[h][i] |-> <<i, p>> ] ]

VARIABLES h, f, t
Init == /\ h \in Which
        /\ f \in [ 1..Combinations(OptsOf(h)) -> {0, 1} ]
        /\ t = TableOf(OptsOf(h), NamesOf(h), f)
Next == UNCHANGED <<h, f, t>>
Spec == Init /\ [][Next]_<<h, f, t>>

\* The labels of a row or column that fit a combination
Fits(labels, n) == \A j \in DOMAIN labels : Position(OptsOf(h), n, labels[j][1]) = labels[j][2]
Told == \A n \in 0..(Len(f) - 1) :
          LET rs == { r \in DOMAIN t.rows : Fits(t.rows[r].lab, n) }
              cs == { c \in DOMAIN t.heads : Fits(t.heads[c], n) }
          IN  Cardinality(rs) = 1 /\ Cardinality(cs) = 1 /\ \A r \in rs, c \in cs : t.rows[r].cells[c] = f[n + 1]
Small == /\ Cardinality({ t.heads[c] : c \in DOMAIN t.heads }) = Len(t.heads)
         /\ \A i \in DOMAIN Shapes[h] :
              ((\E j \in DOMAIN t.heads[1] : t.heads[1][j][1] = i) \/ (\E j \in DOMAIN t.rows[1].lab : t.rows[1].lab[j][1] = i))
              <=> \E n \in 0..(Len(f) - 1), q \in 0..(Len(f) - 1) :
                     /\ f[n + 1] # f[q + 1]
                     /\ \A k \in DOMAIN Shapes[h] : k # i => Position(OptsOf(h), n, k) = Position(OptsOf(h), q, k)
=============================================================================
