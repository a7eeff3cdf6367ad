------------------------------- MODULE Sessions -------------------------------
(***************************************************************************)
(* Checks histories of calls recorded from the real code: C17 against the  *)
(* service that only computes a function of the arguments (Service), C19   *)
(* against iterators that turn like odometers (Odometer).                  *)
(***************************************************************************)
EXTENDS Odometer, Service, Json, FiniteSets

CONSTANTS TraceFile, Prop, From

Trace == ndJsonDeserialize(TraceFile)

VARIABLES l, broken, memo, tables, its
vars == <<l, broken, memo, tables, its>>

Init == l = From /\ broken = 0 /\ memo = <<>> /\ tables = "" /\ its = <<>>

Unless(ok, name) == IF ok THEN {} ELSE {name}
Judge(f) == /\ l' = l + 1
            /\ broken' = broken + Cardinality(f)
            /\ IF f = {} THEN TRUE ELSE PrintT(<<"FAIL", l + 1, f>>)

\* A new process: nothing learnt yet, and its tables are what they should be.
Start(r) == /\ memo' = <<>> /\ its' = <<>>
            /\ tables' = r.tables
            /\ Judge(Unless(tables \in {"", r.tables}, "tables at start"))
Called(r) == /\ memo' = Learn(memo, r.key, r.res)
             /\ Judge(Unless(Agrees(memo, r.key, r.res), "history") \cup Unless(r.a0 = r.a1, "arguments"))
             /\ UNCHANGED <<tables, its>>
Looked(r) == /\ Judge(Unless(r.tables = tables, "tables"))
             /\ UNCHANGED <<memo, tables, its>>

New(r) == /\ its' = (r.id :> Fresh(r.opts)) @@ its
          /\ Judge(Unless(r.err = "", "constructor"))
          /\ UNCHANGED <<memo, tables>>
Stepped(r) ==
    LET it == its[r.id] IN
    IF HasNext(it)
    THEN /\ its' = [its EXCEPT ![r.id] = Advance(it)]
         /\ Judge(Unless(r.err = "" /\ r.out = Given(it), "combination") \cup Unless(r.fresh, "fresh"))
         /\ UNCHANGED <<memo, tables>>
    ELSE /\ Judge(Unless(r.err = "StopIteration", "stop"))
         /\ UNCHANGED <<memo, tables, its>>
Drained(r) ==   \* a for loop, to the end
    LET it == its[r.id]
        left == IF HasNext(it) THEN Combinations(it.opts) - it.n ELSE 0
    IN  /\ its' = [its EXCEPT ![r.id] = [it EXCEPT !.n = it.n + left]]
        /\ Judge(Unless(r.err = "" /\ r.outs = SubSeq([ k \in 1..left |-> Combination(it.opts, it.n + k - 1) ], 1, left), "combinations"))
        /\ UNCHANGED <<memo, tables>>
Again(r) == Judge(Unless(r.same, "iter")) /\ UNCHANGED <<memo, tables, its>>
Published(r) == Judge(Unless(r.opts = PublishedOptions, "published options")) /\ UNCHANGED <<memo, tables, its>>
Spoilt(r) == Judge({}) /\ UNCHANGED <<memo, tables, its>>

Next == /\ l < Len(Trace)
        /\ LET r == Trace[l + 1] IN
             CASE r.op = "start"  -> Start(r)
               [] r.op = "call"   -> Called(r)
               [] r.op = "tables" -> Looked(r)
               [] r.op = "new"    -> New(r)
               [] r.op = "next"   -> Stepped(r)
               [] r.op = "drain"  -> Drained(r)
               [] r.op = "iter"   -> Again(r)
               [] r.op = "published" -> Published(r)
               [] r.op = "spoil"  -> Spoilt(r)
Spec == Init /\ [][Next]_vars
=============================================================================
