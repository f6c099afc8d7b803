------------------------------ MODULE TextTable -----------------------------
(* Text tables: which characters of the file are the table, how they divide  *)
(* into rows and fields, and what the fields mean. Characters are one-       *)
(* character strings; a row is a string.                                     *)
EXTENDS Table, Label

Pad == {" ", "\t", "\"", ","}
RECURSIVE LStrip(_)
LStrip(s) == IF Len(s) > 0 /\ Ch(s, 1) \in Pad THEN LStrip(SubSeq(s, 2, Len(s))) ELSE s
RECURSIVE RStrip(_)
RStrip(s) == IF Len(s) > 0 /\ Ch(s, Len(s)) \in Pad
             THEN RStrip(SubSeq(s, 1, Len(s) - 1)) ELSE s
Strip(s) == RStrip(LStrip(s))
Blank(s) == \A i \in 1..Len(s) : Ch(s, i) \in {" ", "\t"}

\* the rows of a text: line endings are \r\n or \n; text after the last one is
\* a row if there is any. A line is kept with its length including the ending.
RECURSIVE LinesFrom(_, _, _)
LinesFrom(t, from, i) ==
  IF i > Len(t) THEN (IF from > Len(t) THEN <<>> ELSE <<SubSeq(t, from, Len(t))>>)
  ELSE IF Ch(t, i) = "\n"
  THEN <<SubSeq(t, from, i)>> \o LinesFrom(t, i + 1, i + 1)
  ELSE LinesFrom(t, from, i + 1)
RawLines(t) == LinesFrom(t, 1, 1)
Chomp(s) ==
  LET n == Len(s)
  IN IF n > 1 /\ SubSeq(s, n - 1, n) = "\r\n" THEN SubSeq(s, 1, n - 2)
     ELSE IF n > 0 /\ Ch(s, n) = "\n" THEN SubSeq(s, 1, n - 1)
     ELSE IF n > 0 /\ Ch(s, n) = "\r" THEN SubSeq(s, 1, n - 1) ELSE s
Lines(t) == LET r == RawLines(t) IN [i \in 1..Len(r) |-> Chomp(r[i])]

(* The extent of the table. lab:                                             *)
(*   [ptr: "file"|"record"|"byte", at, recbytes (0 = not stated), stream,    *)
(*    textual (the name says it is text), bytes, rowbytes, suffix, rows      *)
(*    (0 = not stated each)]                                                 *)
ByLines(lab) == /\ lab.stream /\ lab.recbytes = 0 /\ lab.bytes = 0
                /\ lab.ptr # "byte" /\ lab.textual
RECURSIVE SumLens(_, _)
SumLens(r, n) == IF n = 0 THEN 0 ELSE SumLens(r, n - 1) + Len(r[n])
StartOf(lab, file) ==
  CASE lab.ptr = "file" -> 0
    [] lab.ptr = "byte" -> lab.at - 1
    [] lab.ptr = "record" ->
         IF lab.recbytes # 0 THEN (lab.at - 1) * lab.recbytes
         ELSE SumLens(RawLines(file), lab.at - 1)      \* records are lines
\* -1: to the end of the file
LengthOf(lab) ==
  IF lab.bytes # 0 THEN lab.bytes
  ELSE IF lab.rows = 0 THEN -1
  ELSE IF lab.rowbytes # 0 THEN lab.rows * (lab.rowbytes + lab.suffix)
  ELSE IF lab.recbytes # 0 THEN lab.rows * lab.recbytes
  ELSE -1
Extent(lab, file) ==
  LET a == StartOf(lab, file)
      n == LengthOf(lab)
  IN IF n = -1 THEN SubSeq(file, a + 1, Len(file))
     ELSE SubSeq(file, a + 1, Min2(a + n, Len(file)))
TableRows(lab, file) ==
  IF ByLines(lab)
  THEN LET r == Lines(SubSeq(file, StartOf(lab, file) + 1, Len(file)))
       IN IF lab.rows = 0 THEN r ELSE SubSeq(r, 1, Min2(lab.rows, Len(r)))
  ELSE Lines(Extent(lab, file))

-----------------------------------------------------------------------------
(* Fields of a delimited row: an automaton over its characters. Blanks after *)
(* a delimiter are padding; a quote opens a quoted part only at the start of *)
(* a field; a doubled quote inside stands for one.                           *)
RECURSIVE Split(_, _, _, _, _, _)
Split(s, sep, i, state, cur, out) ==
  IF i > Len(s) THEN Append(out, cur)
  ELSE LET c == Ch(s, i)
       IN CASE state = "start" ->
                 IF c = sep THEN Split(s, sep, i + 1, "start", "", Append(out, cur))
                 ELSE IF c = " " THEN Split(s, sep, i + 1, "start", cur, out)
                 ELSE IF c = "\"" THEN Split(s, sep, i + 1, "quoted", cur, out)
                 ELSE Split(s, sep, i + 1, "plain", cur \o c, out)
            [] state = "plain" ->
                 IF c = sep THEN Split(s, sep, i + 1, "start", "", Append(out, cur))
                 ELSE Split(s, sep, i + 1, "plain", cur \o c, out)
            [] state = "quoted" ->
                 IF c # "\"" THEN Split(s, sep, i + 1, "quoted", cur \o c, out)
                 ELSE IF i < Len(s) /\ Ch(s, i + 1) = "\""
                 THEN Split(s, sep, i + 2, "quoted", cur \o c, out)
                 ELSE Split(s, sep, i + 1, "plain", cur, out)
Delimited(row, sep) ==
  LET f == Split(row, sep, 1, "start", "", <<>>)
  IN [i \in 1..Len(f) |-> Strip(f[i])]
Fixed(row, cells) ==
  [i \in 1..Len(cells) |-> Strip(
     SubSeq(row, cells[i].off + 1, Min2(cells[i].off + cells[i].w, Len(row))))]

-----------------------------------------------------------------------------
Digits == {"0", "1", "2", "3", "4", "5", "6", "7", "8", "9"}
RECURSIVE AllDigits(_)
AllDigits(s) == s = "" \/ (Ch(s, 1) \in Digits /\ AllDigits(SubSeq(s, 2, Len(s))))
SignOff(s) == IF Len(s) > 0 /\ Ch(s, 1) \in {"+", "-"} THEN SubSeq(s, 2, Len(s)) ELSE s
IsInt(s) == SignOff(s) # "" /\ AllDigits(SignOff(s))
IsReal(s) ==
  LET b == SignOff(s)
      ex == Find(b, {"e", "E"}, 1)
      m == IF ex = 0 THEN b ELSE SubSeq(b, 1, ex - 1)
      pt == Find(m, {"."}, 1)
      i == IF pt = 0 THEN m ELSE SubSeq(m, 1, pt - 1)
      f == IF pt = 0 THEN "" ELSE SubSeq(m, pt + 1, Len(m))
  IN /\ AllDigits(i) /\ AllDigits(f) /\ i \o f # ""
     /\ ex # 0 => IsInt(SubSeq(b, ex + 1, Len(b)))
Missing == {"", "#N/A", "#NA", "<NA>", "N/A", "NA", "NULL", "NaN", "None",
            "n/a", "nan", "null", "-nan", "-NaN"}

\* o.num: the column is numeric; o.data: numerals or texts ("" = missing)
TextColumn(o, fields) ==
  LET n == Len(fields)
      known == {i \in 1..n : fields[i] \notin Missing}
      allnum == \A i \in known : IsReal(fields[i])
      allint == \A i \in 1..n : IsInt(fields[i])
  IN IF Len(o.data) # n THEN {"number-of-rows"}
     ELSE IF allnum /\ known # {}
     THEN IF o.kind = "text" THEN {"numbers-as-text"}
          ELSE Clause("integers-as-reals", allint => o.kind = "int")
               \cup Clause("numbers", \A i \in 1..n :
                      IF i \in known
                      THEN o.data[i] # "" /\ RealCanon(o.data[i]) = RealCanon(fields[i])
                      ELSE o.data[i] = "")
     ELSE IF known = {} THEN Clause("missing", \A i \in 1..n : o.data[i] = ""
                                        \/ o.data[i] = fields[i])
     ELSE IF o.kind # "text" THEN {"text-as-numbers"}
     ELSE Clause("texts", \A i \in 1..n :
            \/ o.data[i] = fields[i]
            \/ fields[i] \in Missing /\ o.data[i] = "")

\* e: [kind: "fixed"|"delimited", sep, items (as for binary tables), lab, file]
Fields(e, rows) ==
  LET cells == Unpack(e.items, 0)
  IN [r \in 1..Len(rows) |->
        IF e.kind = "fixed" THEN Fixed(rows[r], cells) ELSE Delimited(rows[r], e.sep)]
ColumnsOf(o, names, fields) ==
  IF Len(o.cols) # Len(names) THEN {"number-of-columns"}
  ELSE IF o.nrows # Len(fields) THEN {"number-of-rows"}
  ELSE UNION {IF o.cols[i].name # names[i] THEN {"column-name"}
              ELSE TextColumn(o.cols[i], [r \in 1..Len(fields) |->
                     Get(fields[r], i, "")])
              : i \in 1..Len(names)}
Names(e) == LET u == Unique(Unpack(e.items, 0)) IN [i \in 1..Len(u) |-> u[i].name]

(* Named deviations (known findings): rows that are wholly blank are         *)
(* dropped, and a table at fixed positions is read as comma-separated if its *)
(* first row has the right number of commas and no row has more.             *)
NonBlank(rows) == SelectSeq(rows, LAMBDA r : ~Blank(r))
Guess(e, rows) ==
  LET f == [r \in 1..Len(rows) |-> Delimited(rows[r], e.sep)] n == Len(Names(e))
  IN IF rows # <<>> /\ Len(f[1]) = n /\ \A r \in 1..Len(rows) : Len(f[r]) <= n
     THEN f ELSE <<>>

TextTableClauses(e) ==
  LET o == e.obs
      rows == TableRows(e.lab, e.file)
      why == IF o.kind # "table" THEN {"loaded-as-table:" \o o.kind}
             ELSE ColumnsOf(o, Names(e), Fields(e, rows))
      nb == NonBlank(rows)
  IN IF why = {} THEN {}
     ELSE IF nb = <<>> /\ rows # <<>> /\ o.kind = "MultiDict"
     THEN {"deviation-blank-row"}               \* (nothing is left to load)
     ELSE IF o.kind # "table" THEN why
     ELSE IF nb # rows /\ ColumnsOf(o, Names(e), Fields(e, nb)) = {}
     THEN {"deviation-blank-row"}
     ELSE IF e.kind = "fixed" /\ Guess(e, nb) # <<>>
             /\ ColumnsOf(o, Names(e), Guess(e, nb)) = {}
     THEN {"deviation-delimiter-guess"}
     ELSE why
=============================================================================
