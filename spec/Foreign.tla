------------------------------ MODULE Foreign -------------------------------
(* C37: products of agencies that label them less carefully.  Some labels    *)
(* are known by their files' names not to be in UTF-8, and some tables not   *)
(* to be what their PDS4 labels say: their cells are told apart by blanks,   *)
(* their columns named as the label names its fields.                        *)
EXTENDS Dispatch, Texts

HasAll(s, ws) == \A w \in ws : Has(s, w)
\* --------------------------------------------------------- encodings
Encoding(file) ==
  IF HasAny(file, {"CE1", "CE2", "CE3"}) /\
     HasAny(file, {".1A", ".1B", ".1C", ".2A", ".2B", ".2C", ".3A", ".3B", ".3C",
                   ".01", ".02", ".03"}) THEN "gb18030"
  ELSE IF HasAll(file, {".TAB", "_DOY", "_V1"}) /\ HasAny(file, {"MAG_", "BIO_"})
  THEN "latin-1"
  ELSE "utf-8"
\* characters and their bytes in GB 18030, as far as used here
Gb == <<[c |-> 23270, b |-> <<230, 207>>], [c |-> 23077, b |-> <<182, 240>>],
        [c |-> 24230, b |-> <<182, 200>>], [c |-> 20055, b |-> <<129, 92>>],
        [c |-> 35488, b |-> <<213, 92>>], [c |-> 176, b |-> <<161, 227>>],
        [c |-> 233, b |-> <<168, 166>>]>>
RECURSIVE FromGb(_)
FromGb(b) ==
  IF b = <<>> THEN <<>>
  ELSE IF b[1] < 128 THEN <<b[1]>> \o FromGb(Tail(b))
  ELSE LET i == CHOOSE i \in 1..Len(Gb) : Gb[i].b = <<b[1], b[2]>>
       IN  <<Gb[i].c>> \o FromGb(SubSeq(b, 3, Len(b)))
Decoded(enc, b) == CASE enc = "gb18030" -> FromGb(b)
                     [] enc = "latin-1" -> b
                     [] enc = "utf-8" -> FromUtf8(b, 1, <<>>)

\* --------------------------------------------------------- tables
Tables == <<
  [words |-> {"CE6-L_GRAS_LMS-M", "SCI", ".2B"}, how |-> "columns"],
  [words |-> {"CE6-L_GRAS_LMS-S", "SCI", ".2B"}, how |-> "columns"],
  [words |-> {"CE6-L_GRAS_LMS-N", "SCI", ".2B"}, how |-> "columns"],
  [words |-> {"CE5-L_GRAS_LMS-N", "SCI", ".2B"}, how |-> "columns"],
  [words |-> {"CE5-L_GRAS_LMS-M", "SCI", ".2B"}, how |-> "columns"],
  [words |-> {"CE4_GRAS_ASAN-SCI_SCI", ".2B"}, how |-> "blanks"],
  [words |-> {"CE4_GRAS_LND-DPSL_SCI", ".2A"}, how |-> "blanks"],
  [words |-> {"CE4_GRAS_LND-ThN_SCI", ".2A"}, how |-> "blanks"],
  [words |-> {"CE4_GRAS_LND-TID_SCI", ".2A"}, how |-> "blanks"],
  [words |-> {"CE4_GRAS_VNIS-SD_SCI", ".2B"}, how |-> "columns"],
  [words |-> {"ch2_cla_l1_"}, how |-> "fits"]>>
Lax(file) == {i \in 1..Len(Tables) : HasAll(file, Tables[i].words)}
How(file) == IF Lax(file) = {} THEN "label" ELSE Tables[CHOOSE i \in Lax(file) : TRUE].how

\* fields, then as many columns for each group as it repeats; groups without
\* a name are called Group
RECURSIVE Spread(_)
Spread(groups) ==
  IF groups = <<>> THEN <<>>
  ELSE LET g == groups[1]
           name == IF g.name = "" THEN "Group" ELSE g.name
       IN  [i \in 1..g.reps |-> name \o "_" \o ToString(i)] \o Spread(Tail(groups))
Columns(t) == t.fields \o Spread(t.groups)
=============================================================================
