--------------------------------- MODULE Debug ---------------------------------
(***************************************************************************)
(* The debugging page: a form with a function to call, a text, and the     *)
(* settings; a button that makes the call and shows its result, and one    *)
(* that sets the usual settings.  What is shown is the result of the last  *)
(* press, whatever was changed in the form since.                          *)
(***************************************************************************)
EXTENDS Flags

Functions == {"getLujvo", "getVeljvo", "analyseBrivla"}
NewForm == [mode |-> "getLujvo", text |-> "", S |-> Usual, made |-> <<>>]
\* The kind of word to build can be chosen only where words are built.
NoKind(d) == d.mode # "getLujvo"

FormStep(d, e) ==
    CASE e.op = "text"    -> [d EXCEPT !.text = e.text]
      [] e.op = "mode"    -> [d EXCEPT !.mode = e.mode]
      [] e.op = "set"     -> [d EXCEPT !.S[e.f] = e.v]
      [] e.op = "default" -> [d EXCEPT !.S = Usual]
      [] e.op = "go"      -> [d EXCEPT !.made = <<d.mode, d.text, d.S>>]
=============================================================================
