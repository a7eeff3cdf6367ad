-------------------------------- MODULE Conform --------------------------------
(***************************************************************************)
(* Checks a trace recorded from the real code against the specification.   *)
(* TraceFile has one JSON record per line; every record is one step of the *)
(* behaviour.  Each record is judged by the laws of one property, and the  *)
(* laws it breaks are printed and counted in `broken`.                     *)
(***************************************************************************)
EXTENDS Laws

CONSTANTS TraceFile, Prop, From

Trace == ndJsonDeserialize(TraceFile)

VARIABLES l, broken
vars == <<l, broken>>

Words(ss) == SubSeq([ i \in DOMAIN ss |-> Chars(ss[i]) ], 1, Len(ss))
Norms(ss) == SubSeq([ i \in DOMAIN ss |-> Normalise(Chars(ss[i])) ], 1, Len(ss))
SettingsOf(s) == [y |-> s[1], x |-> s[2], c |-> s[3], g |-> s[4], m |-> s[5]]

Unless(ok, name) == IF ok THEN {} ELSE {name}

YesNo(x) == IF x THEN "yes" ELSE "no"

\* Is this a decomposition into rafsi of the reference grammar only?
RafsiOnly(d) == \A i \in DOMAIN d : Len(d[i]) > 2 => Shape(d[i]) # "OTHER"

WordFails(r) ==
    LET w == Normalise(Chars(r.w))
        S == SettingsOf(r.s)
        d == Words(r.d)
        a == Analyse(w, S)
        same == r.t = a.t /\ d = a.d
        cme  == w # <<>> /\ Last(w) \in C
        strict == cme /\ w # <<>> /\ Jvokaha(w, S).ok
    IN
    CASE Prop = "C06" -> Unless(Accepted(r.t) => PiecesLaw(w, r.t, d), "pieces")
      [] Prop = "C07" ->
            IF cme
            THEN IF strict \/ (r.t = "CMEVLA" /\ a.t # "CMEVLA" /\ RafsiOnly(d))
                 THEN Unless(r.t = a.t, "type") \cup Unless(r.t # a.t \/ d = a.d, "pieces") ELSE {}
            ELSE IF r.t = "LUJVO" \/ a.t = "LUJVO"
                 THEN Unless(r.t = a.t, "type") \cup Unless(r.t # a.t \/ d = a.d, "pieces") ELSE {}
      [] Prop = "C08" -> Unless((r.t = "ZIhEVLA") = (a.t = "ZIhEVLA"), "type")
      [] Prop = "C09" ->
            IF cme
            THEN IF ~strict /\ (a.t = "CMEVLA" \/ (r.t = "CMEVLA" /\ ~RafsiOnly(d)))
                 THEN Unless(r.t = a.t, "type") \cup Unless(r.t # a.t \/ d = a.d, "pieces") ELSE {}
            ELSE IF r.t = "EXTENDED_LUJVO" \/ a.t = "EXTENDED_LUJVO"
                 THEN Unless(r.t = a.t, "type") \cup Unless(r.t # a.t \/ d = a.d, "pieces") ELSE {}
      [] Prop = "C12" -> Unless(Phonotactic(w, S), "phonotactics")

Fails(r) ==
    CASE r.k = "word" -> WordFails(r)
      [] r.k = "built" -> Unless(BuiltIsValid(Chars(r.w), r.cm, SettingsOf(r.s), r.at), "valid")
      [] r.k = "round" -> Unless(r.ve = "", "error") \cup Unless(r.ve # "" \/ ReadsBack(Norms(r.t), Words(r.v)), "tanru")
      [] r.k = "best" ->
            LET b == GetLujvo(Words(r.t), r.cm, SettingsOf(r.s)) IN
            IF b.ok THEN Unless(r.e = "", "error") \cup Unless(r.e # "" \/ Chars(r.w) = b.w, "word")
            ELSE IF b.err = "NoLujvoFoundError" THEN Unless(r.e # "", "word for nothing")
            ELSE {}
      [] r.k = "scores" -> Unless(r.sc = ScoreLaw(Chars(r.w), Words(r.d)), "analytics")
                           \cup Unless(r.e2 = "" /\ r.s2 = r.sc, "disagree")
      [] r.k = "score"  -> Unless(r.e2 = "" /\ r.s2 = ScoreLaw(Chars(r.w), Words(r.d)), "score")
      [] r.k = "spans"  -> Unless(CutLaw(Chars(r.w), r.ix), "cut")
                           \cup Unless(Accepted(r.at) => SpansLaw(Chars(r.w), r.ix, Words(r.d), Len(r.t)), "spans")
      [] r.k = "indices" -> Unless(r.ie = "" /\ r.ix = Indices(Words(r.d)), "indices")
      [] r.k = "tails"  -> Unless(NothingFallsOff(Normalise(Chars(r.w)), r.t, r.tl, SettingsOf(r.s)), "falls off")
      [] r.k = "slinkuhi" -> Unless(NoSlinkuhi(Normalise(Chars(r.w)), r.t, Chars(r.cv), r.to, SettingsOf(r.s)), "slinkuhi")
      [] r.k = "gismu"  ->
            LET w == Normalise(Chars(r.w))
                is == IsGismu(w, r.s[5])
            IN  Unless((r.t = "GISMU") = is, "type") \cup Unless(r.ig = (IF is THEN "yes" ELSE "no"), "is_gismu")
                \cup Unless(r.t = "CMEVLA" => ~IsGismu(Append(w, "a"), r.s[5]), "short")
      [] r.k = "outcome" -> Unless(r.oc \in AllowedErrors(r.f), "outcome")
      [] r.k = "variant" ->
            Unless(r.r1 = r.r2, "differs")
            \cup Unless(Norms(r.v) = Norms(r.p), "input")
            \cup Unless(Chars(r.nv) = Normalise(Chars(r.v[1])) /\ r.nn = r.nv, "normalise")
      [] r.k = "gate" -> Unless(Gating(Chars(r.w), r.ts, r.ds), "gating")
      [] r.k = "dict" ->
            LET b == GetLujvo(Words(r.t), r.cm, SettingsOf(r.s)) IN
            IF r.e # "" THEN Unless(~b.ok, "error")
            ELSE Unless(UsesAssigned(Words(r.t), Chars(r.w), r.ix), "assigned")
                 \cup Unless(b.ok /\ b.w = Chars(r.w), "preference")
      [] r.k = "owner" -> Unless(r.ve = "" /\ Owned(Chars(r.r), Words(r.v), r.i), "owner")
      [] r.k = "veljvo" ->
            LET b == GetVeljvo(Chars(r.w), SettingsOf(r.s)) IN
            IF b.ok THEN Unless(r.ve # "" \/ Words(r.v) = b.v, "veljvo") ELSE {}
      [] r.k = "agree" -> Unless(Agreement(Normalise(Chars(r.w)), SettingsOf(r.s), r.t, Words(r.d), r.b, r.ve, r.v, r.se, r.sc, r.ie, r.ix,
                                           r.gl, r.base), "agreement")
      [] r.k = "same" -> Unless(r.e = r.e1 /\ (r.e # "" \/ r.w = r.w1), "with and without analytics")
      [] r.k = "hyphens" -> Unless(HyphensLaw(Words(r.t), r.cm, Chars(r.w), r.ix, SettingsOf(r.s)), "hyphens")
                             \cup Unless(Lean(Chars(r.w), r.cm, r.ix, SettingsOf(r.s)), "a hyphen not needed, or one missing")
      [] r.k = "reads" ->
            LET w == IF Prop = "C25" THEN NormaliseUndotted(Chars(r.w)) ELSE Normalise(Chars(r.w))
                S == SettingsOf(r.s)
                a == Analyse(w, S)
                err == IF a.t \in LujvoTypes THEN "" ELSE IF Accepted(a.t) THEN "DecompositionError" ELSE a.t
            IN  Unless(Chars(r.nw) = w, "normalise")
                \cup Unless(r.t = a.t, "type") \cup Unless(Words(r.d) = a.d, "pieces")
                \cup Unless(r.b = YesNo(a.t \in BrivlaTypes), "is_brivla")
                \cup Unless(r.ve = err /\ (err = "" => Words(r.v) = Meanings(a.d, S)), "veljvo")
                \cup Unless(r.se = err /\ (err = "" => r.sc = ScoreLaw(w, a.d)), "score")
                \cup Unless(r.ie = "" /\ r.ix = Indices(a.d), "indices")
                \cup Unless(r.gl = YesNo(IsGismuOrLujvo(w, S.y, S.m)), "gismu_or_lujvo")
                \cup Unless(r.ig = YesNo(IsGismu(w, S.m)), "is_gismu")
      [] r.k = "builds" ->
            LET t == IF Prop = "C26" THEN [ i \in DOMAIN r.t |-> Undot(Chars(r.t[i])) ] ELSE Words(r.t)
                k == Components(SubSeq(t, 1, Len(t)), 1, SettingsOf(r.s), <<>>)
                b == LujvoFrom(k, r.cm, SettingsOf(r.s)) IN
            (IF Prop # "C26" THEN {}
             ELSE Unless(IF k.ok THEN r.fe = "" /\ Len(r.fs) = Len(k.fss)
                                      /\ \A i \in DOMAIN r.fs : { Chars(r.fs[i][j]) : j \in DOMAIN r.fs[i] } = { k.fss[i][j].f : j \in DOMAIN k.fss[i] }
                         ELSE r.fe = k.err, "forms")) \cup
            Unless(r.e1 = r.e /\ r.w1 = r.w, "with and without analytics")
            \cup IF b.ok
                 THEN Unless(r.e = "", "error")
                      \cup (IF r.e # "" THEN {} ELSE
                            Unless(Chars(r.w) = b.w, "word") \cup Unless(r.sc = b.sc, "score") \cup Unless(r.ix = b.ix, "spans"))
                 ELSE Unless(r.e = b.err \/ (Prop = "C26" /\ Len(r.t) < 2 /\ b.err = "NoLujvoFoundError" /\ r.e = "FakeTypeError"), "refusal")
      [] r.k = "refuse" -> Unless(Refusal(Words(r.t), SettingsOf(r.s), r.e), "refusal")

Init == l = From /\ broken = 0
Next == /\ l < Len(Trace)
        /\ l' = l + 1
        /\ LET f == Fails(Trace[l + 1]) IN
             /\ broken' = broken + Cardinality(f)
             /\ IF f = {} THEN TRUE ELSE PrintT(<<"FAIL", l + 1, f>>)
Spec == Init /\ [][Next]_vars
=============================================================================
