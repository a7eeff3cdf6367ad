----------------------------- MODULE MC_Odometer ------------------------------
(***************************************************************************)
(* Several iterators used in any order: what each has given is always the  *)
(* first part of its combinations in order, whatever the others do; it     *)
(* stops for good exactly when all have been given.                        *)
(*                                                                         *)
(* With Emit the histories of Depth steps are printed; the recorder        *)
(* replays them into the real code.                                        *)
(***************************************************************************)
EXTENDS Odometer, FiniteSets, TLC, Json

CONSTANTS Ids, Depth, Emit

\* values are distinct per wheel, so a combination shows its own position
Shapes == { << <<"a", "b">> >>, << <<"a", "b">>, <<"c", "d", "e">> >>, << <<"a">>, <<"b", "c">>, <<"d", "e">> >>,
            << <<"a", "b">>, <<>> >>, << >> }

VARIABLES its, out, stopped, hist
vars == <<its, out, stopped, hist>>

None == [opts |-> <<>>, n |-> 99]
Init == /\ its = [ i \in Ids |-> None ]
        /\ out = [ i \in Ids |-> <<>> ]
        /\ stopped = [ i \in Ids |-> FALSE ]
        /\ hist = <<>>

New(i, o) == /\ its[i] = None
             /\ \A j \in Ids : j < i => its[j] # None
             /\ its' = [its EXCEPT ![i] = Fresh(o)]
             /\ hist' = Append(hist, [op |-> "new", id |-> i, opts |-> o])
             /\ UNCHANGED <<out, stopped>>
Step(i) == /\ its[i] # None
           /\ IF HasNext(its[i])
              THEN /\ out' = [out EXCEPT ![i] = Append(@, Given(its[i]))]
                   /\ its' = [its EXCEPT ![i] = Advance(@)]
                   /\ UNCHANGED stopped
              ELSE /\ stopped' = [stopped EXCEPT ![i] = TRUE]
                   /\ UNCHANGED <<its, out>>
           /\ hist' = Append(hist, [op |-> "next", id |-> i])
\* the caller writes into the last list it was given
Spoil(i) == /\ its[i] # None /\ out[i] # <<>>
            /\ hist # <<>> /\ hist[Len(hist)] = [op |-> "next", id |-> i]
            /\ hist' = Append(hist, [op |-> "spoil", id |-> i])
            /\ UNCHANGED <<its, out, stopped>>
\* asking the iterator for an iterator gives itself
Again(i) == /\ its[i] # None
            /\ hist[Len(hist)].op # "iter"
            /\ hist' = Append(hist, [op |-> "iter", id |-> i])
            /\ UNCHANGED <<its, out, stopped>>
Next == /\ Len(hist) < Depth
        /\ \E i \in Ids : \/ \E o \in Shapes : New(i, o)
                          \/ Step(i) \/ Spoil(i) \/ Again(i)
Spec == Init /\ [][Next]_vars

\* -------------------------------------------------- stated independently
Position(x, seq) == CHOOSE k \in DOMAIN seq : seq[k] = x
All(o) == { c \in [ DOMAIN o -> {"a", "b", "c", "d", "e"} ] : \A k \in DOMAIN o : \E p \in DOMAIN o[k] : o[k][p] = c[k] }
\* c comes before d: at the last wheel where they differ, c is earlier
Before(o, c, d) == \E k \in DOMAIN o : /\ \A m \in DOMAIN o : m > k => c[m] = d[m]
                                       /\ Position(c[k], o[k]) < Position(d[k], o[k])
InOrder == \A i \in Ids : \A a, b \in DOMAIN out[i] : a < b => Before(its[i].opts, out[i][a], out[i][b])
FromTheList == \A i \in Ids : its[i] # None => \A a \in DOMAIN out[i] : out[i][a] \in All(its[i].opts)
NothingSkipped == \A i \in Ids : its[i] # None =>
    \A c \in All(its[i].opts) : \A a \in DOMAIN out[i] : Before(its[i].opts, c, out[i][a]) => \E b \in DOMAIN out[i] : out[i][b] = c
StopsAtTheEnd == \A i \in Ids : stopped[i] => Len(out[i]) = Cardinality(All(its[i].opts))
NeverAfterStop == [][\A i \in Ids : stopped[i] => out'[i] = out[i]]_vars

\* the histories, for replaying
Printed == ~Emit \/ Len(hist) < Depth \/ PrintT(<<"HIST", ToJson(hist)>>)
ASSUME Combinations(PublishedOptions) = 72
=============================================================================
