------------------------------- MODULE Lerfu --------------------------------
(***************************************************************************)
(* The alphabet, the consonant-cluster tables and the vowel-cluster tables *)
(* of Lojban, as latkerlo-jvotci defines them, and the elementary          *)
(* operations on words.                                                    *)
(*                                                                         *)
(* A word is a sequence of one-character strings, <<"k","l","a","m","a">>. *)
(* Chars turns a TLA+ string literal (or a string read from a trace) into  *)
(* such a word.                                                            *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC

Chars(s) == SubSeq([i \in 1..Len(s) |-> SubSeq(s, i, i)], 1, Len(s))

V == {"a", "e", "i", "o", "u"}
C == {"b", "c", "d", "f", "g", "j", "k", "l", "m", "n", "p", "r", "s", "t", "v", "x", "z"}
Sonorants == {"l", "m", "n", "r"}
H == "'"
Y == "y"

--------------------------------------------------------------------------
(* Consonant pairs.  Row c of a table lists the letters that may follow c. *)

Pairs(rows) == UNION { { <<SubSeq(r, 1, 1), SubSeq(r, i, i)>> : i \in 3..Len(r) } : r \in rows }

\* Pairs permitted anywhere in a word.
ValidPairs == Pairs({
    "b:dgjlmnrvz", "c:fklmnprt", "d:bgjlmnrvz", "f:cklmnprstx", "g:bdjlmnrvz",
    "j:bdglmnrv", "k:cflmnprst", "l:bcdfgjkmnprstvxz", "m:bcdfgjklnprstvx",
    "n:bcdfgjklmprstvxz", "p:cfklmnrstx", "r:bcdfgjklmnpstvxz", "s:fklmnprtx",
    "t:cfklmnprsx", "v:bdgjlmnrz", "x:flmnprst", "z:bdglmnrv" })
\* The extra pair allowed by the allow_mz setting.
MzPair == <<"m", "z">>

\* Pairs that may begin a word.
InitialPairs == Pairs({
    "b:lr", "c:fklmnprt", "d:jrz", "f:lr", "g:lr", "j:bdgmv", "k:lr", "m:lr",
    "p:lr", "s:fklmnprt", "t:crs", "v:lr", "x:lr", "z:bdgmv" })

\* Pairs that may be the second half of a word-initial triple of a zi'evla.
ZihevlaInitialPairs == Pairs({ "b:lr", "d:r", "f:lr", "g:lr", "k:lr", "m:lr", "p:lr", "t:r", "v:lr" })

BannedTriples == { <<"n", "d", "j">>, <<"n", "d", "z">>, <<"n", "t", "c">>, <<"n", "t", "s">> }

ValidPair(p, mz)  == p \in ValidPairs \/ (mz /\ p = MzPair)
InitialPair(p)    == p \in InitialPairs

--------------------------------------------------------------------------
(* Vowel sequences. *)

Diphthongs == { <<"a", "i">>, <<"e", "i">>, <<"o", "i">>, <<"a", "u">> }
\* Syllables with an on-glide.
GlideSyllables ==
    { <<g, v>> : g \in {"i", "u"}, v \in V }
    \cup { <<"i">> \o <<"a", "u">>, <<"u">> \o <<"a", "u">> }
    \cup { <<g>> \o d : g \in {"i", "u"}, d \in { <<"a", "i">>, <<"e", "i">>, <<"o", "i">> } }
PlainSyllables == { <<v>> : v \in V } \cup Diphthongs

--------------------------------------------------------------------------
(* Words. *)

Last(w)      == w[Len(w)]
Take(w, n)   == SubSeq(w, 1, IF n < Len(w) THEN n ELSE Len(w))
DropN(w, n)  == SubSeq(w, n + 1, Len(w))
LastN(w, n)  == IF n < Len(w) THEN SubSeq(w, Len(w) - n + 1, Len(w)) ELSE w
ButLast(w)   == SubSeq(w, 1, Len(w) - 1)

\* A word starts with an on-glide.
Glide(w) == Len(w) >= 2 /\ w[1] \in {"i", "u"} /\ w[2] \in V

Count(w, S) == Cardinality({ i \in DOMAIN w : w[i] \in S })

RECURSIVE StripFront(_)
StripFront(w) == IF w # <<>> /\ w[1] \in {H, Y} THEN StripFront(Tail(w)) ELSE w
RECURSIVE StripBack(_)
StripBack(w) == IF w # <<>> /\ Last(w) \in {H, Y} THEN StripBack(ButLast(w)) ELSE w
\* A form without the hyphen characters around it.
Strip(w) == StripBack(StripFront(w))

RECURSIVE Concat(_)
Concat(ws) == IF ws = <<>> THEN <<>> ELSE Head(ws) \o Concat(Tail(ws))

\* Split at every y.
RECURSIVE SplitAt(_, _, _)
SplitAt(w, i, cur) ==
    IF i > Len(w) THEN <<cur>>
    ELSE IF w[i] = Y THEN <<cur>> \o SplitAt(w, i + 1, <<>>)
    ELSE SplitAt(w, i + 1, Append(cur, w[i]))
SplitY(w) == SplitAt(w, 1, <<>>)

--------------------------------------------------------------------------
(* Normalisation: one leading period is dropped, capitals become small     *)
(* letters, h is the apostrophe, commas carry no meaning.                  *)

Upper == Chars("ABCDEFGHIJKLMNOPQRSTUVWXYZ")
Lower == Chars("abcdefghijklmnopqrstuvwxyz")
UpperSet == { Upper[i] : i \in 1..26 }
LowerOf == [u \in UpperSet |-> Lower[CHOOSE i \in 1..26 : Upper[i] = u]]

NormChar(c) ==
    LET l == IF c \in UpperSet THEN LowerOf[c] ELSE c
    IN  IF l = "h" THEN <<H>> ELSE IF l = "," THEN <<>> ELSE <<l>>
RECURSIVE NormFrom(_, _)
NormFrom(w, i) == IF i > Len(w) THEN <<>> ELSE NormChar(w[i]) \o NormFrom(w, i + 1)
Normalise(w) == IF w # <<>> /\ w[1] = "." THEN NormFrom(w, 2) ELSE NormFrom(w, 1)

\* The Rust version documents "no periods": it removes all of them at both ends.
RECURSIVE Undot(_)
Undot(w) ==
    IF w # <<>> /\ w[1] = "." THEN Undot(Tail(w))
    ELSE IF w # <<>> /\ w[Len(w)] = "." THEN Undot(SubSeq(w, 1, Len(w) - 1)) ELSE w
NormaliseUndotted(w) == NormFrom(Undot(w), 1)

=============================================================================
