------------------------------- MODULE MC_Text ------------------------------
(* A writer that produces one row of a text table field by field, quoting    *)
(* and padding as it likes. The splitting automaton and the fixed positions  *)
(* must give the written fields back. Extents: the writer also puts text     *)
(* around the table; the extent of the label must cut exactly the table.     *)
EXTENDS TextTable, Json
CONSTANTS MaxFields, Contents, Seps, MaxRows

VARIABLES kind, sep, contents, widths, row, rows, lay
vars == <<kind, sep, contents, widths, row, rows, lay>>

Sp(n) == IF n <= 0 THEN "" ELSE [i \in 1..8 |-> SubSeq("        ", 1, i)][n]
Quoted(c) == "\"" \o c \o "\""
HasSep(c, s) == Find(c, {s}, 1) # 0
\* ways to write content c in a field of width w
Ways(c, s) ==
  LET must == HasSep(c, s)
      p == {0, 1, 2}
  IN {Sp(a) \o q \o Sp(b) : a \in {0, 1}, b \in {0, 2},
                             q \in (IF must THEN {Quoted(c)} ELSE {c, Quoted(c)})}
\* a fixed field is four wide
FixedWays(c) == {Sp(4 - Len(c)) \o c, c \o Sp(4 - Len(c))}

Init == /\ kind \in {"fixed", "delimited"}
        /\ sep \in (IF kind = "fixed" THEN {","}
                    ELSE {IF x = "TAB" THEN "\t" ELSE x : x \in Seps})
        /\ contents = <<>> /\ widths = <<>> /\ row = "" /\ rows = <<>>
        /\ lay \in [pre: {"none", "lines", "bytes"}, post: BOOLEAN,
                    ptr: {"file", "record", "byte"}, len: {"rows", "bytes"},
                    stream: BOOLEAN]
        /\ lay.pre = "none" <=> lay.ptr = "file"
        /\ lay.pre = "bytes" => lay.ptr = "byte"
        /\ lay.ptr = "record" => lay.pre = "lines"
        /\ (kind = "delimited" /\ ~(lay.stream /\ lay.ptr # "byte")) => lay.len = "bytes"
Field == /\ Len(contents) < MaxFields
         /\ \E c \in Contents :
              \E w \in (IF kind = "fixed" THEN FixedWays(c) ELSE Ways(c, sep)) :
                /\ contents' = Append(contents, c)
                /\ widths' = Append(widths, Len(w))
                /\ row' = row \o (IF contents = <<>> THEN ""
                                  ELSE IF kind = "fixed" THEN " " ELSE sep) \o w
         /\ UNCHANGED <<kind, sep, rows, lay>>
Next == Field
Spec == Init /\ [][Next]_vars

RoundTrip ==
  contents # <<>> =>
    LET want == [i \in 1..Len(contents) |-> Strip(contents[i])]
        cells == [i \in 1..Len(contents) |->
                    Cell("C", "CHARACTER", 5 * (i - 1), 4)]
    IN IF kind = "fixed" THEN Fixed(row, cells) = want
       ELSE Delimited(row, sep) = want
\* the extent cuts the rows and nothing else
Nl == "\r\n"
Ahead == CASE lay.pre = "none" -> "" [] lay.pre = "lines" -> "head,er" \o Nl \o "x" \o Nl
            [] lay.pre = "bytes" -> "junk,"
Behind == IF lay.post THEN "tail,er" \o Nl ELSE ""
TwoRows == row \o Nl \o row \o Nl
LabOf == [ptr |-> lay.ptr,
          at |-> IF lay.ptr = "file" THEN 1 ELSE IF lay.ptr = "byte" THEN Len(Ahead) + 1 ELSE 3,
          recbytes |-> 0, stream |-> lay.stream, textual |-> TRUE,
          bytes |-> IF lay.len = "bytes" THEN Len(TwoRows) ELSE 0,
          rowbytes |-> IF lay.len = "rows" THEN Len(row) + 2 ELSE 0,
          suffix |-> 0, rows |-> 2]
ExtentOK == contents # <<>> =>
              TableRows(LabOf, Ahead \o TwoRows \o Behind) = <<row, row>>
ASSUME /\ Strip(" \"ab \" ,") = "ab" /\ IsReal("-.5E+2") /\ ~IsReal("E5")
       /\ ~IsReal(".") /\ IsInt("+7") /\ ~IsInt("") /\ ~IsReal("1.2.3")
       /\ RealCanon("007") = RealCanon("7.0") /\ Lines("a\r\nb\n\nc") = <<"a", "b", "", "c">>
Emit == (Len(contents) = 1 /\ contents[1] = "A" /\ (row = "A" \/ row = "A   ")) =>
          PrintT("SCN " \o ToJson([kind |-> kind, sep |-> sep] @@ lay))
=============================================================================
