--------------------------------- MODULE Table ---------------------------------
(***************************************************************************)
(* The table of the web page: the results of all combinations of settings, *)
(* in a table that has rows and columns only for the settings on which the *)
(* result depends.  opts is a list of option lists, f the sequence of the  *)
(* results of the combinations, in the order of Odometer.                  *)
(***************************************************************************)
EXTENDS Odometer, FiniteSets

\* The position of a wheel in combination n (from 0), from 1
Position(opts, n, i) == 1 + ((n \div Weight(opts, i - 1)) % Len(opts[i]))
RECURSIVE Number(_, _, _)
Number(opts, sel, i) == IF i > Len(opts) THEN 0 ELSE (sel[i] - 1) * Weight(opts, i - 1) + Number(opts, sel, i + 1)

Matters(opts, f, i) ==
    \E n \in 0..(Combinations(opts) - 1) : f[n + 1] # f[n + 1 - (Position(opts, n, i) - 1) * Weight(opts, i - 1)]

RECURSIVE Those(_, _, _)
Those(opts, f, i) == IF i > Len(opts) THEN <<>> ELSE (IF Matters(opts, f, i) THEN <<i>> ELSE <<>>) \o Those(opts, f, i + 1)
\* The settings that matter go to rows and columns in turn.
Every(ms, from) == SubSeq([ k \in 1..((Len(ms) + 2 - from) \div 2) |-> ms[2 * k - 2 + from] ], 1, (Len(ms) + 2 - from) \div 2)
Rows(ms) == Every(ms, 1)
Columns(ms) == Every(ms, 2)

RECURSIVE Product(_, _, _)
Product(opts, is, from) == IF from > Len(is) THEN 1 ELSE Len(opts[is[from]]) * Product(opts, is, from + 1)
\* The k-th (from 0) choice for the settings is: the first setting changes slowest.
Choice(opts, is, k) == [ j \in DOMAIN is |-> 1 + ((k \div Product(opts, is, j + 1)) % Len(opts[is[j]])) ]

Pick(opts, ys, r, xs, c) ==
    [ i \in DOMAIN opts |-> IF \E j \in DOMAIN ys : ys[j] = i THEN r[CHOOSE j \in DOMAIN ys : ys[j] = i]
                            ELSE IF \E j \in DOMAIN xs : xs[j] = i THEN c[CHOOSE j \in DOMAIN xs : xs[j] = i] ELSE 1 ]

Tuple(g, n) == SubSeq(g, 1, n)
\* [heads, rows]: per column its labels; per row its labels and cells.  names[i][p] is the label of a choice.
TableOf(opts, names, f) ==
    LET ms == Those(opts, f, 1)
        ys == Rows(ms)
        xs == Columns(ms)
        nr == Product(opts, ys, 1)
        nc == Product(opts, xs, 1)
        Row(k) == Choice(opts, ys, k)
        Col(k) == Choice(opts, xs, k)
        Labels(is, ch) == Tuple([ j \in DOMAIN is |-> names[is[j]][ch[j]] ], Len(is))
    IN  [ heads |-> Tuple([ c \in 1..nc |-> Labels(xs, Col(c - 1)) ], nc),
          rows |-> Tuple([ r \in 1..nr |-> [ lab |-> Labels(ys, Row(r - 1)),
                            cells |-> Tuple([ c \in 1..nc |-> f[1 + Number(opts, Pick(opts, ys, Row(r - 1), xs, Col(c - 1)), 1)] ], nc) ] ], nr) ]
=============================================================================
