-------------------------------- MODULE Fronts ---------------------------------
(***************************************************************************)
(* Checks recorded histories of what users see: strings of flags (C27),    *)
(* sessions with the command line (C28), the web page (C30), sessions with *)
(* the Python command lines (C31), the debugging page (C33).               *)
(***************************************************************************)
EXTENDS Cli, PyCli, Page, Debug, Table

CONSTANTS TraceFile, Prop, From

Trace == ndJsonDeserialize(TraceFile)

VARIABLES l, broken, cfg, pg, form
vars == <<l, broken, cfg, pg, form>>

Unless(ok, name) == IF ok THEN {} ELSE {name}
Judge(f) == /\ l' = l + 1
            /\ broken' = broken + Cardinality(f)
            /\ IF f = {} THEN TRUE ELSE PrintT(<<"FAIL", l + 1, f>>)

Init == l = From /\ broken = 0 /\ cfg = Usual /\ pg = NewPage /\ form = NewForm

Strings(ss) == SubSeq([ i \in DOMAIN ss |-> Chars(ss[i]) ], 1, Len(ss))

(* Flags: fields are shown as [cm, y, c, x, g, m]. *)
Fieldwise(S) == [ cm |-> S.cm, y |-> S.y, c |-> S.c, x |-> S.x, g |-> S.g, m |-> S.m ]
Selected(r) ==
    LET s == Chars(r.f) IN
    /\ cfg' = IF Parses(s) THEN Parse(s) ELSE cfg
    /\ Judge(IF ~Parses(s) THEN Unless(~r.ok, "accepted a bad string")
             ELSE IF ~r.ok THEN {"refused a good string"}
             ELSE Unless(r.set = Fieldwise(Parse(s)), "selected") \cup Unless(Chars(r.shown) = Show(Parse(s)), "shown")
                  \cup Unless(r.again, "reads back"))
    /\ UNCHANGED pg
Changed(r) ==
    LET s == Chars(r.f)
        S == Apply(cfg, s)
    IN  /\ cfg' = S
        /\ Judge(Unless(r.ok = KeysOnly(s), "verdict") \cup Unless(r.set = Fieldwise(S), "changed") \cup Unless(Chars(r.shown) = Show(S), "shown"))
        /\ UNCHANGED pg
Listing(r) ==
    /\ Judge(Unless(Len(r.all) = 144 /\ { r.all[i] : i \in DOMAIN r.all } = FlagSettings, "every settings once"))
    /\ UNCHANGED <<cfg, pg>>

(* The command line *)
Started(r) ==   \* started to ask questions
    LET s == Chars(r.f) IN
    /\ cfg' = IF Parses(s) THEN Parse(s) ELSE Usual
    /\ pg' = NewPage
    /\ Judge({})
Lined(r) ==
    LET line == Chars(r.line)
        S == cfg
    IN  /\ cfg' = After(line, S)
        /\ Judge(Unless(Chars(r.prompt) = Show(S), "prompt")
                 \cup Unless(Prints(line, S, Strings(r.out)), "printed")
                 \cup Unless(r.ended = Quits(line), "goes on"))
        /\ UNCHANGED pg
Ended(r) == /\ Judge(Unless(r.rc = 0 /\ r.extra <= 1, "ends"))
            /\ UNCHANGED <<cfg, pg>>
Once(r) ==      \* one question in the arguments
    LET good == Parses(Chars(r.f))
        S == Parse(Chars(r.f))
        a == IF good THEN Answer(Chars(r.line), S) ELSE <<Error>>
    IN  /\ Judge(Unless(SameLines(Strings(r.out), a), "printed") \cup Unless(r.rc = IF a[Len(a)] = Error THEN 1 ELSE 0, "exit status"))
        /\ UNCHANGED <<cfg, pg>>

(* The Python command lines *)
RECURSIVE Word1(_)
Word1(cs) == IF cs = <<>> THEN "" ELSE (IF cs[1] \in UpperSet THEN LowerOf[cs[1]] ELSE cs[1]) \o Word1(Tail(cs))
PyAfter(line, S, tool) ==
    IF line[1] # "/" THEN S
    ELSE LET ws == Fields(Tail(line)) IN SayAll(S, SubSeq([ i \in DOMAIN ws |-> Word1(ws[i]) ], 1, Len(ws)), 1, tool)
PyAnswer(line, S, tool) ==
    IF line[1] = "/" THEN <<>>
    ELSE IF tool = "katna"
    THEN LET a == AnalyseBrivla(line, S) IN
         IF ~Accepted(a.t) THEN << <<"!">> >>
         ELSE << <<"word", a.t, a.d>>, IF a.t \in LujvoTypes THEN <<"tanru", Meanings(a.d, S)>> ELSE <<"!">> >>
    ELSE LET ws == Fields(line)
             b == GetLujvo(ws, S.cm, S)
         IN  IF Len(ws) < 2 \/ ~b.ok THEN << <<"!">> >> ELSE << <<"lujvo", b.w, b.sc, b.ix>> >>
PySeen(x) == CASE x.k = "word"  -> <<"word", x.t, Strings(x.d)>>
               [] x.k = "tanru" -> <<"tanru", Strings(x.v)>>
               [] x.k = "lujvo" -> <<"lujvo", Chars(x.w), x.sc, x.ix>>
               [] x.k = "error" -> <<"!">>
\* Values of different kinds are not compared.
PySame(seen, exp) == /\ Len(seen) = Len(exp)
                     /\ \A i \in DOMAIN exp : LET v == PySeen(seen[i]) IN v[1] = exp[i][1] /\ Len(v) = Len(exp[i]) /\ \A j \in DOMAIN v : v[j] = exp[i][j]
PyStarted(r) == /\ cfg' = Usual /\ pg' = NewPage /\ Judge({})
PyLined(r) ==
    LET line == Chars(r.line) IN
    /\ cfg' = PyAfter(line, cfg, r.tool)
    /\ Judge(Unless(r.prompt = Prompt(cfg, r.tool), "prompt")
             \cup Unless(r.read /\ PySame(r.out, PyAnswer(line, cfg, r.tool)), "printed"))
    /\ UNCHANGED pg

(* The web page *)
All == << <<"STANDARD", "ALLOW_Y", "FORCE_Y">>, <<FALSE, TRUE>>, <<"CLUSTER", "TWO_CONSONANTS", "ONE_CONSONANT">>, <<FALSE, TRUE>>, <<FALSE, TRUE>> >>
Easily == << <<"STANDARD">>, <<FALSE>>, <<"CLUSTER">>, <<FALSE>>, <<FALSE>> >>
Labels == << <<"STANDARD", "ALLOW_Y", "FORCE_Y">>, <<"STD_RAF", "EXP_RAF">>, <<"CLUSTER", "2_CON", "1_CON">>, <<"NO_GLIDE", "GLIDE">>, <<"NOMZ", "MZ">> >>
Setting(o) == [y |-> o[1], x |-> o[2], c |-> o[3], g |-> o[4], m |-> o[5]]

Comma == <<",", " ">>
Says(ws, cm, S) ==
    IF ws = <<>> THEN << <<>>, "" >>
    ELSE IF Len(ws) = 1
    THEN LET a == AnalyseBrivla(ws[1], S) IN
         IF ~Accepted(a.t) THEN << Chars("NOT BRIVLA"), "red" >>
         ELSE << Chars(a.t) \o Chars("<br>[") \o Joined(a.d, Comma) \o <<"]">>
                 \o (IF a.t \in LujvoTypes THEN Chars("<br>") \o Spaced(Meanings(a.d, S)) ELSE <<>>),
                 IF a.t = "CMEVLA" THEN "yellow" ELSE "green" >>
    ELSE LET b == GetLujvo(ws, cm, S) IN
         IF b.ok THEN << b.w, IF cm THEN "yellow" ELSE "green" >> ELSE << Chars("NO LUJVO FOUND"), "red" >>

Results(made) ==
    LET opts == IF made[3] THEN Easily ELSE All
        ws == Fields(Chars(made[1]))
        n == Combinations(opts)
    IN  SubSeq([ k \in 1..n |-> Says(ws, made[2], Setting(Combination(opts, k - 1))) ], 1, n)
Shown(made) == TableOf(IF made[3] THEN Easily ELSE All, Labels, Results(made))

\* the table as it was read off the page: cells are [content, class]
Seen(t) == [ heads |-> t.heads,
             rows |-> SubSeq([ i \in DOMAIN t.rows |-> [ lab |-> t.rows[i].lab,
                       cells |-> SubSeq([ j \in DOMAIN t.rows[i].cells |-> << Chars(t.rows[i].cells[j][1]), t.rows[i].cells[j][2] >> ],
                                        1, Len(t.rows[i].cells)) ] ], 1, Len(t.rows)) ]
Opened(r) == /\ pg' = NewPage
             /\ Judge(Unless(r.err = "", "opens"))
             /\ UNCHANGED cfg
Used(r) ==
    LET q == Step(pg, r.e)
    IN  /\ pg' = q
        /\ Judge(Unless(r.err = "", "fails")
                 \cup (IF q.made = pg.made /\ r.same THEN {}
                       ELSE Unless(r.read /\ q.made # <<>> /\ Seen(r.t) = Shown(q.made), "table"))
                 \cup Unless(r.on = << ~q.cm, q.cm, q.ez >>, "buttons"))
        /\ UNCHANGED cfg

(* The debugging page *)
RECURSIVE Between(_, _)
Between(ws, sep) == IF ws = <<>> THEN <<>> ELSE IF Len(ws) = 1 THEN ws[1] ELSE ws[1] \o sep \o Between(Tail(ws), sep)
Spans(ix) == Between(SubSeq([ i \in DOMAIN ix |-> Chars(ToString(ix[i][1])) \o <<"-">> \o Chars(ToString(ix[i][2])) ], 1, Len(ix)), Comma)
\* <<in the colour of errors, lines>>; a message may be anything
Tells(made) ==
    LET mode == made[1]  text == Chars(made[2])  S == made[3] IN
    IF mode = "getLujvo"
    THEN LET ws == Fields(text)
             b == GetLujvo(ws, S.cm, S)
         IN  IF Len(ws) < 2 \/ ~b.ok THEN <<TRUE>> ELSE <<FALSE, << b.w, Chars(ToString(b.sc)), Spans(b.ix) >> >>
    ELSE IF mode = "getVeljvo"
    THEN LET v == GetVeljvo(text, S) IN IF ~v.ok THEN <<TRUE>> ELSE <<FALSE, << Spaced(v.v) >> >>
    ELSE LET a == AnalyseBrivla(text, S) IN IF ~Accepted(a.t) THEN <<TRUE>> ELSE <<FALSE, << Chars(TypeName[a.t]), Spaced(a.d) >> >>
Shows(r, made) ==
    IF made = <<>> THEN r.out = <<>> /\ ~r.bad
    ELSE LET t == Tells(made) IN r.bad = t[1] /\ (r.bad \/ Strings(r.out) = t[2])
Formed(r) == /\ form' = NewForm
             /\ Judge(Unless(r.err = "" /\ r.ready, "opens"))
             /\ UNCHANGED <<cfg, pg>>
Filled(r) ==
    LET q == FormStep(form, r.e)
        s == r.now
    IN  /\ form' = q
        /\ Judge(Unless(r.err = "", "fails")
                 \cup Unless(IF r.e.op = "go" THEN Shows(r, q.made) ELSE r.same, "shown")
                 \cup Unless([cm |-> s.cm, y |-> s.y, c |-> s.c, x |-> s.x, g |-> s.g, m |-> s.m] = q.S, "settings")
                 \cup Unless(s.mode = q.mode /\ s.text = q.text, "question")
                 \cup Unless(r.off = NoKind(q), "kind of word"))
        /\ UNCHANGED <<cfg, pg>>

Judged == /\ l < Len(Trace)
        /\ LET r == Trace[l + 1] IN
             CASE r.op = "select" -> Selected(r)
               [] r.op = "change" -> Changed(r)
               [] r.op = "all"    -> Listing(r)
               [] r.op = "start"  -> Started(r)
               [] r.op = "line"   -> Lined(r)
               [] r.op = "end"    -> Ended(r)
               [] r.op = "once"   -> Once(r)
               [] r.op = "pystart" -> PyStarted(r)
               [] r.op = "pyline" -> PyLined(r)
               [] r.op = "open"   -> Opened(r)
               [] r.op = "use"    -> Used(r)
DebugStep == /\ l < Len(Trace)
        /\ LET r == Trace[l + 1] IN
             \/ r.op = "form" /\ Formed(r)
             \/ r.op = "fill" /\ Filled(r)
Next == \/ DebugStep
        \/ l < Len(Trace) /\ Trace[l + 1].op \notin {"form", "fill"} /\ Judged /\ UNCHANGED form
Spec == Init /\ [][Next]_vars
=============================================================================
