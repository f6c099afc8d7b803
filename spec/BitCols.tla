------------------------------- MODULE BitCols ------------------------------
(* Columns described by bit columns. bitdef: [little, cols], where each bit  *)
(* column is [start, len, items, off]: `items` = 0 for a plain one, else so  *)
(* many items of `len` bits, `off` bits apart. Bits count from 1 at the most *)
(* significant bit of the value of the column.                               *)
EXTENDS Table

ValueBits(raw, little) == BitsOf(IF little THEN Rev(raw) ELSE raw)
Spans(bc) ==
  IF bc.items = 0 THEN <<[at |-> bc.start, len |-> bc.len]>>
  ELSE [i \in 1..bc.items |-> [at |-> bc.start + (i - 1) * bc.off, len |-> bc.len]]
AllSpans(cols) == Flat([i \in 1..Len(cols) |-> Spans(cols[i])])
\* the list of bit strings of one row
BitLists(raw, def) ==
  LET v == ValueBits(raw, def.little) sp == AllSpans(def.cols)
  IN [i \in 1..Len(sp) |-> SubSeq(v, sp[i].at, sp[i].at + sp[i].len - 1)]

\* defs: sequence of [name, little, cols] for the columns that have bits
DefOf(defs, name) == CHOOSE d \in Range(defs) : d.name = name
HasDef(defs, name) == \E d \in Range(defs) : d.name = name

BitTableClauses(tab, defs, o, file, start) ==
  LET cs == Cells(tab) raw == Unpack(tab.items, tab.prefix)
  IN IF o.kind # "table" THEN {"loaded-as-table:" \o o.kind}
     ELSE IF Len(o.cols) # Len(cs) THEN {"number-of-columns"}
     ELSE IF o.nrows # tab.rows THEN {"number-of-rows"}
     ELSE UNION {
       LET raws == [r \in 1..tab.rows |-> RawCell(tab, cs[i], r, file, start)]
       IN IF ~HasDef(defs, raw[i].name) THEN ColumnClauses(cs[i], o.cols[i], raws)
          ELSE IF o.cols[i].name # cs[i].name THEN {"column-name"}
          ELSE IF o.cols[i].kind # "list" THEN {"bits-kind:" \o o.cols[i].kind}
          ELSE LET d == DefOf(defs, raw[i].name)
               IN Clause("bits:" \o (IF d.little THEN "little" ELSE "big"),
                    o.cols[i].data = [r \in 1..tab.rows |->
                      LET bl == BitLists(raws[r], d)
                      IN [k \in 1..Len(bl) |-> BitStr(bl[k])]])
       : i \in 1..Len(cs)}
=============================================================================
