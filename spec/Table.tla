-------------------------------- MODULE Table -------------------------------
(* Binary PDS3 TABLE objects: a tree of COLUMNs and CONTAINERs describes the *)
(* row; it denotes a flat sequence of cells; the file holds the rows one     *)
(* after the other.                                                          *)
(*                                                                           *)
(* item  [k, name, type, start, bytes, reps, ib, io, sub]                    *)
(*   k = "col": `reps` = 0 for a plain column, otherwise the number of       *)
(*       ITEMS, each `ib` bytes long, `io` bytes apart                       *)
(*   k = "con": a container of `bytes` bytes repeated `reps` times whose     *)
(*       items are `sub`                                                     *)
(* START_BYTEs count from 1 within the enclosing row or container.           *)
EXTENDS Samples

Cell(name, type, off, w) == [name |-> name, type |-> type, off |-> off, w |-> w]

RECURSIVE Unpack(_, _)
UnpackOne(it, base) ==
  LET at == base + it.start - 1
  IN IF it.k = "col"
     THEN IF it.reps = 0 THEN <<Cell(it.name, it.type, at, it.bytes)>>
          ELSE [i \in 1..it.reps |->
                  Cell(it.name, it.type, at + (i - 1) * it.io, it.ib)]
     ELSE Flat([r \in 1..it.reps |-> Unpack(it.sub, at + (r - 1) * it.bytes)])
Unpack(items, base) == Flat([i \in 1..Len(items) |-> UnpackOne(items[i], base)])

\* names that occur more than once are numbered from 0 in order of appearance
Occurs(cells, name) == Cardinality({i \in 1..Len(cells) : cells[i].name = name})
Unique(cells) ==
  [i \in 1..Len(cells) |->
     IF Occurs(cells, cells[i].name) = 1 THEN cells[i]
     ELSE [cells[i] EXCEPT !.name =
             cells[i].name \o "_" \o ToString(Cardinality(
               {j \in 1..(i - 1) : cells[j].name = cells[i].name}))]]

\* tab: [items, rows, rowbytes, prefix, suffix]
Cells(tab) == Unique(Unpack(tab.items, tab.prefix))
Stride(tab) == tab.prefix + tab.rowbytes + tab.suffix
RawCell(tab, c, r, file, start) ==
  Cut(file, start + (r - 1) * Stride(tab) + c.off, c.w)

-----------------------------------------------------------------------------
(* Exact comparison of floating-point encodings: a number is its sign, the   *)
(* bits from the leading one to the last one, and the exponent of the        *)
(* leading one.                                                              *)
RECURSIVE StripLead(_)
StripLead(b) == IF b = <<>> THEN b ELSE IF Head(b) = 1 THEN b ELSE StripLead(Tail(b))
RECURSIVE StripTrail(_)
StripTrail(b) == IF b = <<>> THEN b
                 ELSE IF b[Len(b)] = 1 THEN b
                 ELSE StripTrail(SubSeq(b, 1, Len(b) - 1))
Zero == [neg |-> 0, bits |-> <<>>, exp |-> 0]

IeeeNumber(be) ==
  LET f == IF Len(be) = 4 THEN [e |-> 8, bias |-> 127]
           ELSE [e |-> 11, bias |-> 1023]
      bits == BitsOf(be)
      RECURSIVE Val(_)
      Val(i) == IF i = 0 THEN 0 ELSE Val(i - 1) * 2 + bits[1 + i]
      ex == Val(f.e)
      frac == SubSeq(bits, 2 + f.e, Len(bits))
  IN IF ex = 0 THEN (IF AllZero(frac) THEN Zero
                     ELSE LET s == StripLead(frac)
                          IN [neg |-> bits[1], bits |-> StripTrail(s),
                              exp |-> 0 - f.bias - (Len(frac) - Len(s))])
     ELSE [neg |-> bits[1], bits |-> StripTrail(<<1>> \o frac),
           exp |-> ex - f.bias]

\* IBM System/360 hexadecimal floating point: 0.m * 16 ^ (e - 64)
IbmNumber(be) ==
  LET bits == BitsOf(be)
      frac == SubSeq(bits, 9, Len(bits))
      s == StripLead(frac)
  IN IF s = <<>> THEN Zero
     ELSE [neg |-> bits[1], bits |-> StripTrail(s),
           exp |-> 4 * ((be[1] % 128) - 64) - 1 - (Len(frac) - Len(s))]

RECURSIVE StripNul(_)
StripNul(s) == IF s = <<>> THEN s
               ELSE IF s[Len(s)] = 0 THEN StripNul(SubSeq(s, 1, Len(s) - 1))
               ELSE s

\* EBCDIC (code page 500) to Latin-1, then UTF-8 (as observed)
Cp500 == <<
   0, 1, 2, 3, 156, 9, 134, 127, 151, 141, 142, 11, 12, 13, 14, 15,
   16, 17, 18, 19, 157, 133, 8, 135, 24, 25, 146, 143, 28, 29, 30, 31,
   128, 129, 130, 131, 132, 10, 23, 27, 136, 137, 138, 139, 140, 5, 6, 7,
   144, 145, 22, 147, 148, 149, 150, 4, 152, 153, 154, 155, 20, 21, 158, 26,
   32, 160, 226, 228, 224, 225, 227, 229, 231, 241, 91, 46, 60, 40, 43, 33,
   38, 233, 234, 235, 232, 237, 238, 239, 236, 223, 93, 36, 42, 41, 59, 94,
   45, 47, 194, 196, 192, 193, 195, 197, 199, 209, 166, 44, 37, 95, 62, 63,
   248, 201, 202, 203, 200, 205, 206, 207, 204, 96, 58, 35, 64, 39, 61, 34,
   216, 97, 98, 99, 100, 101, 102, 103, 104, 105, 171, 187, 240, 253, 254, 177,
   176, 106, 107, 108, 109, 110, 111, 112, 113, 114, 170, 186, 230, 184, 198, 164,
   181, 126, 115, 116, 117, 118, 119, 120, 121, 122, 161, 191, 208, 221, 222, 174,
   162, 163, 165, 183, 169, 167, 182, 188, 189, 190, 172, 124, 175, 168, 180, 215,
   123, 65, 66, 67, 68, 69, 70, 71, 72, 73, 173, 244, 246, 242, 243, 245,
   125, 74, 75, 76, 77, 78, 79, 80, 81, 82, 185, 251, 252, 249, 250, 255,
   92, 247, 83, 84, 85, 86, 87, 88, 89, 90, 178, 212, 214, 210, 211, 213,
   48, 49, 50, 51, 52, 53, 54, 55, 56, 57, 179, 219, 220, 217, 218, 159>>
Utf8(c) == IF c < 128 THEN <<c>> ELSE <<192 + (c \div 64), 128 + (c % 64)>>
Ebcdic(raw) == Flat([i \in 1..Len(raw) |-> Utf8(Cp500[1 + raw[i]])])

TextTypes == {"CHARACTER", "DATE", "TIME"}
BitTypes == {"MSB_BIT_STRING", "LSB_BIT_STRING"}

\* does column observation o show the cells whose stored bytes are raws?
ColumnClauses(c, o, raws) ==
  LET n == Len(raws)
      Same(kind, dt, f(_)) ==
        IF o.kind # kind THEN {"column-kind:" \o c.type \o ":" \o o.kind}
        ELSE IF dt # "" /\ o.dtype # dt
             THEN {"column-dtype:" \o c.type \o ":" \o o.dtype}
        ELSE Clause("cells:" \o c.type,
                    o.data = [r \in 1..n |-> f(raws[r])])
      E(x) == Elem(c.type, x)
      Id(x) == x
      B(x) == <<IF AllZero(x) THEN 0 ELSE 1>>
  IN IF o.name # c.name THEN {"column-name"}
     ELSE CASE c.type = "IBM_REAL" ->
                 IF o.kind # "num" \/ o.dtype \notin {"f4", "f8"}
                    \/ Len(o.data) # n
                 THEN {"column-kind:IBM_REAL"}
                 ELSE Clause("cells:IBM_REAL", \A r \in 1..n :
                        IeeeNumber(o.data[r]) = IbmNumber(raws[r]))
            [] c.type = "BOOLEAN" -> Same("bool", "", B)
            [] c.type \in TextTypes -> Same("bytes", "", StripNul)
            [] c.type \in {"EBCDIC_CHARACTER", "EBCDIC"} -> Same("str", "", Ebcdic)
            [] c.type \in BitTypes -> Same("bytes", "", Id)
            [] OTHER -> Same("num", DType(c.type, c.w), E)

TableClausesAt(cs, stride, nrows, o, file, start) ==
  IF o.kind # "table" THEN {"loaded-as-table:" \o o.kind}
  ELSE IF Len(o.cols) # Len(cs) THEN {"number-of-columns"}
  ELSE IF o.nrows # nrows THEN {"number-of-rows"}
  ELSE UNION {ColumnClauses(cs[i], o.cols[i],
                [r \in 1..nrows |->
                   Cut(file, start + (r - 1) * stride + cs[i].off, cs[i].w)]) :
              i \in 1..Len(cs)}

-----------------------------------------------------------------------------
(* Named deviations (known findings). The code does not place containers at  *)
(* their START_BYTE: it infers the place of a block of fields from the field *)
(* before it, and repeats it by dividing the fields of that name into equal  *)
(* chunks. This is right for containers that follow a plain or multi-item    *)
(* column immediately and repeat nothing that is itself repeated, and wrong  *)
(* otherwise. CodeCells says exactly where the code looks, so that any other *)
(* mistake is still seen. It also counts ROW_PREFIX_BYTES as part of         *)
(* ROW_BYTES.                                                                *)
HasContainer(items) == \E i \in 1..Len(items) : items[i].k = "con"
Row(n, t, w, by, isz, sb, blk, br, bb) ==
  [name |-> n, type |-> t, w |-> w, by |-> by, isz |-> isz, sb |-> sb,
   blk |-> blk, br |-> br, bb |-> bb]

RECURSIVE CodeFields(_, _, _, _, _)
CodeFields(items, blk, br, bb, prefix) ==
  LET One(i) ==
        LET it == items[i]
            cons == {j \in 1..i : items[j].k = "con"}
            ph == IF cons = {} THEN FALSE
                  ELSE LET j == CHOOSE m \in cons : \A x \in cons : x <= m
                       IN HasContainer(items[j].sub)
            hold == IF ~ph THEN <<>>
                    ELSE <<Row("PLACEHOLDER_" \o it.name, "VOID", 0, 0, 0,
                               it.start - 1 + prefix,
                               "PLACEHOLDER_" \o (IF blk = "" THEN "None" ELSE blk),
                               IF it.k = "con" THEN it.reps ELSE 1, it.bytes)>>
        IN hold \o
           (IF it.k = "con"
            THEN LET sub == CodeFields(it.sub, it.name, it.reps, it.bytes, prefix)
                 IN Flat([r \in 1..it.reps |-> sub])
            ELSE LET w == IF it.reps = 0 THEN it.bytes ELSE it.ib
                     row == Row(it.name, it.type, w, it.bytes,
                                IF it.reps = 0 THEN 0 ELSE it.io,
                                it.start - 1 + prefix, blk, br, bb)
                 IN [r \in 1..(IF it.reps = 0 THEN 1 ELSE it.reps) |-> row])
  IN Flat([i \in 1..Len(items) |-> One(i)])

\* block names in order of first appearance
RECURSIVE Blocks(_)
Blocks(rows) ==
  IF rows = <<>> THEN <<>>
  ELSE LET b == Blocks(SubSeq(rows, 1, Len(rows) - 1)) n == rows[Len(rows)].blk
       IN IF n \in Range(b) THEN b ELSE Append(b, n)

\* rows of one block moved to where the code thinks they are
MoveBlock(rows, n, prefix) ==
  LET ix == {i \in 1..Len(rows) : rows[i].blk = n}
      first == CHOOSE i \in ix : \A j \in ix : i <= j
      prior == rows[first - 1]
      size == Cardinality(ix)
      count == rows[first].br * (IF prior.br > 1 THEN prior.br ELSE 1)
      big == size % count
      q == size \div count
      rank(i) == Cardinality({j \in ix : j < i})
      chunk(i) == IF count = 1 THEN 0
                  ELSE IF rank(i) < big * (q + 1) THEN rank(i) \div (q + 1)
                  ELSE big + (rank(i) - big * (q + 1)) \div q
  IN [i \in 1..Len(rows) |->
        IF i \notin ix THEN rows[i]
        ELSE [rows[i] EXCEPT !.sb = rows[i].sb + prior.sb + prior.by - prefix
                                    + chunk(i) * rows[first].bb]]
RECURSIVE MoveBlocks(_, _, _)
MoveBlocks(rows, names, prefix) ==
  IF names = <<>> THEN rows
  ELSE MoveBlocks(IF Head(names) = "PLACEHOLDER_None" THEN rows
                  ELSE MoveBlock(rows, Head(names), prefix),
                  Tail(names), prefix)

\* items of multi-item columns, in the order of their columns' offsets
Spread(rows) ==
  LET ms == {i \in 1..Len(rows) : rows[i].isz > 0}
      offs == {rows[i].sb : i \in ms}
      CountAt(o) == Cardinality({i \in ms : rows[i].sb = o})
      rank(i) == Cardinality({j \in ms : j < i})       \* 0-based place of i
      Before(o) == LET lo == {p \in offs : p < o}
                       RECURSIVE S(_)
                       S(T) == IF T = {} THEN 0
                               ELSE LET p == CHOOSE p \in T : TRUE
                                    IN CountAt(p) + S(T \ {p})
                   IN S(lo)
      groupOf(i) == CHOOSE o \in offs :
                      Before(o) <= rank(i) /\ rank(i) < Before(o) + CountAt(o)
      leader(o) == CHOOSE i \in ms : rank(i) = Before(o)
  IN [i \in 1..Len(rows) |->
        IF i \notin ms THEN rows[i]
        ELSE LET o == groupOf(i)
             IN [rows[i] EXCEPT
                   !.sb = o + (rank(i) - Before(o)) * rows[leader(o)].isz]]

Top(tab) == CodeFields(tab.items, "", 1, 0, tab.prefix)
\* the code cannot handle a block without name after one with a name
CodeFails(tab) == LET b == Blocks(Top(tab)) IN "" \in Range(Tail(b))
CodeRows(tab) ==
  Spread(MoveBlocks(Top(tab), Tail(Blocks(Top(tab))), tab.prefix))
EndOf(rows) == LET ends == {rows[i].sb + rows[i].w : i \in 1..Len(rows)}
               IN CHOOSE m \in ends : \A x \in ends : x <= m
CodeStride(tab, rows) == Max2(EndOf(rows), tab.rowbytes + tab.suffix)
CodeCells(rows) ==
  LET real == SelectSeq(rows, LAMBDA r : r.type # "VOID")
  IN Unique([i \in 1..Len(real) |->
               Cell(real[i].name, real[i].type, real[i].sb, real[i].w)])

\* (VAX and IBM cells of rows read at the wrong place can be encodings that
\* are not numbers, on which this specification is silent)
Silent == {"cells:VAX_REAL", "cells:IBM_REAL"}
Deviates(tab, o, file, start) ==
  IF CodeFails(tab) THEN o.kind = "other"
  ELSE LET rows == CodeRows(tab)
           stride == CodeStride(tab, rows)
           n == Min2(tab.rows, (Len(file) - start) \div stride)
       IN (stride # Stride(tab) \/ CodeCells(rows) # Cells(tab))
          /\ IF n = 0
             THEN o.kind = "other" \/ (o.kind = "table" /\ o.nrows = 0)
             ELSE TableClausesAt(CodeCells(rows), stride, n, o, file, start)
                    \subseteq Silent
TableClauses(tab, o, file, start) ==
  LET why == TableClausesAt(Cells(tab), Stride(tab), tab.rows, o, file, start)
  IN IF why = {} THEN why
     ELSE IF Deviates(tab, o, file, start)
     THEN IF CodeFails(tab) THEN {"deviation-column-after-leading-container"}
          ELSE IF CodeCells(CodeRows(tab)) = Cells(tab)
          THEN {"deviation-row-prefix-stride"}
          ELSE {"deviation-container-position"}
     ELSE why
=============================================================================
