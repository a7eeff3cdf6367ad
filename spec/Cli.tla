---------------------------------- MODULE Cli ----------------------------------
(***************************************************************************)
(* The command line of the Rust version: what it prints for a word or a    *)
(* tanru under the present settings, and how lines change those.  Output   *)
(* is a list of lines without colours; "!" is an error message.            *)
(***************************************************************************)
EXTENDS Laws, Flags

Blank(ch) == ch \in {" ", "\t", "\r", "\n"}
RECURSIVE Split(_, _, _)
Split(s, i, cur) ==
    IF i > Len(s) THEN (IF cur = <<>> THEN <<>> ELSE <<cur>>)
    ELSE IF Blank(s[i]) THEN (IF cur = <<>> THEN <<>> ELSE <<cur>>) \o Split(s, i + 1, <<>>)
    ELSE Split(s, i + 1, Append(cur, s[i]))
Fields(s) == Split(s, 1, <<>>)

RECURSIVE Joined(_, _)
Joined(ws, sep) == IF ws = <<>> THEN <<>> ELSE IF Len(ws) = 1 THEN ws[1] ELSE ws[1] \o sep \o Joined(Tail(ws), sep)
Spaced(ws) == Joined(ws, <<" ">>)
Braced(w) == <<"{">> \o w \o <<"}">>
Error == <<"!">>
TypeName == [GISMU |-> "gismu", ZIhEVLA |-> "zihevla", LUJVO |-> "lujvo", EXTENDED_LUJVO |-> "extended lujvo", CMEVLA |-> "cmevla"]

\* What the dictionary has
Known(n) ==
    (IF Selrafsi(n) # <<>> THEN << Braced(n) \o Chars(" is a rafsi of ") \o Braced(Selrafsi(n)) >> ELSE <<>>)
    \o (IF Listed(n) THEN << Braced(n) \o Chars(" has rafsi ") \o Braced(Spaced(ShortRafsi(n))) >> ELSE <<>>)

\* The lines for one word
Look(word, S) ==
    LET n == NormaliseUndotted(word)
        a == Analyse(n, S)
    IN  IF ~Accepted(a.t) THEN Known(n) \o <<Error>>
        ELSE
        LET lujvo == a.t \in LujvoTypes
            ms == Meanings(a.d, S)
            best == GetLujvo(ms, S.cm, S)
        IN  Known(n) \o << Chars(TypeName[a.t]) >>
            \o (IF Spaced(a.d) = n THEN <<>> ELSE << Spaced(a.d) >>)
            \o (IF lujvo THEN << Chars(ToString(ScoreLaw(n, a.d))) >> ELSE <<>>)
            \o << Spaced(ms) >>
            \o (IF ~lujvo THEN <<Error>>
                ELSE IF best.ok /\ best.w # n
                THEN << Chars("best: ") \o best.w \o Chars(" (") \o Chars(ToString(best.sc)) \o <<")">> >>
                ELSE <<>>)
\* The line for a tanru
MakeOne(ws, S) ==
    LET b == GetLujvo(SubSeq([ i \in DOMAIN ws |-> Undot(ws[i]) ], 1, Len(ws)), S.cm, S) IN
    IF Len(ws) >= 2 /\ b.ok THEN << b.w >> ELSE <<Error>>

Answer(line, S) == LET ws == Fields(line) IN IF Len(ws) = 1 THEN Look(ws[1], S) ELSE MakeOne(ws, S)

\* A line of a session: a command or a question
Trimmed(line) == Joined(Fields(line), <<" ">>)   \* only its first letter and, of a command, its letters matter
Command(line) == Fields(line) # <<>> /\ Fields(line)[1][1] = "/"
CommandText(line) == Tail(Trimmed(line))
Has(s, ch) == \E i \in DOMAIN s : s[i] = ch
Quits(line) == Command(line) /\ Has(CommandText(line), "q")
Helps(line) == Command(line) /\ ~Quits(line) /\ Has(CommandText(line), "h")
After(line, S) == IF Command(line) /\ ~Quits(line) /\ ~Helps(line) THEN Apply(S, CommandText(line)) ELSE S

\* What is seen of a line: what it prints (its best word may be marked with dashes where hyphens were left out)
Undashed(s) == SelectSeq(s, LAMBDA ch : ch # "-")
SameLine(seen, exp) == seen = exp \/ (Take(exp, 6) = Chars("best: ") /\ Undashed(seen) = exp)
SameLines(seen, exp) == Len(seen) = Len(exp) /\ \A i \in DOMAIN exp : SameLine(seen[i], exp[i])
Prints(line, S, seen) ==
    IF Quits(line) THEN seen = <<>>
    ELSE IF Helps(line) THEN seen # <<>> /\ Error \notin { seen[i] : i \in DOMAIN seen }
    ELSE IF Command(line) THEN seen = (IF KeysOnly(CommandText(line)) THEN <<>> ELSE <<Error>>)
    ELSE SameLines(seen, Answer(line, S))
=============================================================================
