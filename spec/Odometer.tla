------------------------------- MODULE Odometer -------------------------------
(***************************************************************************)
(* Enumerating settings: an iterator over a list of option lists.  Its     *)
(* state is how many combinations it has given; combination n is read off  *)
(* n as off an odometer whose first wheel turns fastest.                   *)
(***************************************************************************)
EXTENDS Naturals, Sequences

RECURSIVE Weight(_, _)
Weight(opts, i) == IF i = 0 THEN 1 ELSE Len(opts[i]) * Weight(opts, i - 1)

Combinations(opts) == Weight(opts, Len(opts))

Combination(opts, n) ==
    SubSeq([ i \in DOMAIN opts |-> opts[i][1 + ((n \div Weight(opts, i - 1)) % Len(opts[i]))] ], 1, Len(opts))

\* An iterator, and what its next step gives.
Fresh(opts) == [opts |-> opts, n |-> 0]
HasNext(it) == it.n < Combinations(it.opts)
Given(it)   == Combination(it.opts, it.n)
Advance(it) == [it EXCEPT !.n = @ + 1]

PublishedOptions == << <<"STANDARD", "ALLOW_Y", "FORCE_Y">>, <<"false", "true">>,
                       <<"CLUSTER", "TWO_CONSONANTS", "ONE_CONSONANT">>,
                       <<"false", "true">>, <<"false", "true">> >>
=============================================================================
