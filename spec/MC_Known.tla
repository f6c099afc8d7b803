------------------------------ MODULE MC_Known -------------------------------
(* Every case of Known, with labels that are right, or wrong in the way that *)
(* is known, for tables and images of several sizes.                         *)
EXTENDS Known, Json
CONSTANTS MaxRows, MaxCols
VARIABLES c, label, cols, phase

None == [rows |-> 0, rowbytes |-> 0, records |-> 0, recordbytes |-> 0,
         start |-> 0, record |-> 1, lines |-> 0, samples |-> 0, prefix |-> 0]
\* true row lengths, for the rules that do not fix them
Lengths(how) ==
  CASE how.kind = "fixed" /\ how.cols = "encounter" -> {70, 83}
    [] how.kind = "fixed" /\ how.cols = "sixth" -> {90, 97}
    [] how.kind = "fixed" /\ how.cols \in {"shifted", "fourths"} -> {47, 70}
    [] OTHER -> {24, 47}
\* a label for rows of t bytes
Labelled(how, t) ==
  CASE how.stride.by = "more" -> [None EXCEPT !.rowbytes = t - how.stride.n]
    [] how.stride.by = "being" -> [None EXCEPT !.rowbytes = how.stride.n - (t % 3)]
    [] how.stride.by = "record" -> [None EXCEPT !.rowbytes = t - 2,
                                                !.recordbytes = t]
    [] how.stride.by = "wrong" -> [None EXCEPT !.rowbytes =
                                     IF t = 24 THEN how.stride.n ELSE 64]
Counted(l, how, n) ==
  CASE how.rows = "label" -> {[l EXCEPT !.rows = n, !.records = r] : r \in {n, n + 2}}
    [] how.rows = "records" -> {[l EXCEPT !.rows = r, !.records = n] :
                                  r \in {1, n, n + 2}}
    [] how.rows = "size" -> {l}
    [] how.rows = "two" -> {[l EXCEPT !.rows = n]}
Placed(l, how) ==
  IF how.start = "record" THEN {[l EXCEPT !.record = r] : r \in {1, 2, 4}}
  ELSE {[l EXCEPT !.start = a] : a \in {0, 37}}
FixedLabels(how) ==
  UNION {UNION {Counted(l, how, n) : l \in Placed(Labelled(how, t), how)} :
           t \in Lengths(how), n \in 1..MaxRows}
TextLabels(how) ==
  {[None EXCEPT !.rows = n, !.start = a] : n \in 1..MaxRows,
     a \in IF how.rows = "counted" THEN {0, 398, 399, 1197, 1200} ELSE {0}}
CellLabels(how) ==
  {[None EXCEPT !.rows = n, !.start = a, !.rowbytes = w, !.record = r] :
     n \in 1..MaxRows,
     r \in IF how.place \in {"early", "records", "wrapped"} THEN {2, 3, 5} ELSE {1},
     a \in {0, 37}, w \in CASE how.cols = "second" -> {26}
                        [] c.id = "jovian-tables" -> {4, 12, 20}
                        [] OTHER -> {26, 41}}
ImageLabels ==
  {[None EXCEPT !.lines = n, !.samples = m, !.prefix = p, !.start = a] :
     n \in 1..3, m \in 2..4, p \in {0, 2}, a \in {0, 37}}
Labels == CASE c.how.kind = "text" -> TextLabels(c.how)
            [] c.how.kind = "fixed" -> FixedLabels(c.how)
            [] c.how.kind = "cells" -> CellLabels(c.how)
            [] OTHER -> ImageLabels

Init == c \in Cases /\ label = None /\ cols = 0 /\ phase = "case"
Write ==
  /\ phase = "case" /\ phase' = "done"
  /\ label' \in Labels
  /\ cols' \in (IF c.how.kind = "image" THEN {1} ELSE 1..MaxCols)
  /\ UNCHANGED c
Next == Write
Spec == Init /\ [][Next]_<<c, label, cols, phase>>

Done == phase = "done"
\* each is known by one of the rules of Irregular
Covered == Irregular(Object(c))
\* no two cases are told apart by anything but what they are known by
Distinct == \A d \in Cases : Object(c) = Object(d) => c = d
\* what is known matters: reading by the label would go wrong for some label
Ramp == [i \in 1..2600 |-> 48 + (i % 10)]
\* a column at the start of rows
Left == [start |-> 1, bytes |-> 3, name |-> "A", number |-> 1]
Full == label @@ [columns |-> <<Left>>, others |-> <<Left>>]
Agrees == c.how.kind = "fixed" /\ c.how.cols = "label" /\ c.how.ends
          /\ c.how.rows # "size" =>
  LET t == FixedTable(Ramp, c.how, Full) IN
  /\ Len(t.rows) = CASE c.how.rows = "records" -> label.records
                     [] c.how.rows = "two" -> 2
                     [] OTHER -> label.rows
  /\ \A i \in 1..Len(t.rows) : t.rows[i][1] = Cut(Ramp,
       FixedStart(c.how, label, Len(Ramp)) + (i - 1) * Stride(c.how, label), 3)
\* the cells of a table by what is true of them; types that are told right
\* stay as they are, and columns that are not in the wrong stay in place
Item == [name |-> "A", start |-> 1, bytes |-> 2, type |-> "MSB_INTEGER",
         items |-> 0, each |-> 0]
Pair == [Item EXCEPT !.name = "B", !.start = 3, !.items = 2, !.each = 2,
                     !.bytes = 4]
CellLabel == label @@ [columns |-> <<Item, Pair>>,
  group |-> [start |-> 8, bytes |-> 3, reps |-> 2, columns |-> <<Item>>]]
Placed2 == c.how.kind = "cells" /\ c.how.cols = "label" =>
  LET t == CellTable(Ramp, c.how, CellLabel)
      at == CellStart(c.how, CellLabel, Len(Ramp))
  IN  /\ t.names = <<"A_0", "B_0", "B_1", "A_1", "A_2">>
      /\ Len(t.rows) = label.rows
      /\ t.rows[1][3].b = Natural(Cut(Ramp, at + 4, 2))
      /\ t.rows[label.rows][5].b =
           Natural(Cut(Ramp, at + (label.rows - 1) * label.rowbytes + 10, 2))
Sound == Done => Agrees /\ Placed2
Emit == Done => PrintT("SCN " \o ToJson([o |-> Object(c), how |-> c.how,
                       id |-> c.id, label |-> label, cols |-> cols]))
=============================================================================
