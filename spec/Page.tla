--------------------------------- MODULE Page ----------------------------------
(***************************************************************************)
(* The web page.  Typing starts (or restarts) a short wait, after which    *)
(* the table is made; the buttons make it at once.  What the table shows   *)
(* depends on the text, the brivla/cmevla buttons and the easy mode, as    *)
(* they are when it is made.                                               *)
(***************************************************************************)
EXTENDS Naturals, Sequences

NewPage == [text |-> "", cm |-> FALSE, ez |-> FALSE, wait |-> FALSE, made |-> <<>>]
Now(p) == <<p.text, p.cm, p.ez>>
Make(p) == [p EXCEPT !.made = Now(p)]

Typed(p, t) == [p EXCEPT !.text = t, !.wait = TRUE]
Waited(p) == IF p.wait THEN Make([p EXCEPT !.wait = FALSE]) ELSE p
Chosen(p, cm) == IF p.cm = cm THEN p ELSE Make([p EXCEPT !.cm = cm])
Easy(p) == Make([p EXCEPT !.ez = ~@])

Step(p, e) ==
    CASE e.op = "type"   -> Typed(p, e.text)
      [] e.op = "wait"   -> Waited(p)
      [] e.op = "brivla" -> Chosen(p, FALSE)
      [] e.op = "cmevla" -> Chosen(p, TRUE)
      [] e.op = "easy"   -> Easy(p)
=============================================================================
