-------------------------------- MODULE Fits ---------------------------------
(* FITS products: the layout of the file, the names of the HDUs, the objects *)
(* a reader offers for them, and what these hold.                            *)
(* An HDU: [name, kind: "image"|"bintable"|"table", cards: Seq [k, v, c],    *)
(*   bitpix, axes (fastest first), scale: [on, s2, z2, blank], cols, data]   *)
(* scale: the physical value is (z2 + s2 * stored) / 2.                      *)
EXTENDS Label

Block == 2880
Round(n) == ((n + Block - 1) \div Block) * Block
HeaderSize(h) == Round((h.ncards + 1) * 80)
DataSize(h) == Round(h.nbytes)
RECURSIVE HeaderAt(_, _)
HeaderAt(hs, i) == IF i = 1 THEN 0
                   ELSE HeaderAt(hs, i - 1) + HeaderSize(hs[i - 1]) + DataSize(hs[i - 1])
DataAt(hs, i) == HeaderAt(hs, i) + HeaderSize(hs[i])

-----------------------------------------------------------------------------
(* Names. An HDU with a name of its own keeps it; HDUs with the same name    *)
(* are numbered in file order, passing over numbers that would give them the *)
(* name of another HDU.                                                      *)
OwnName(hs, i) == IF i = 1 /\ hs[i].name = "" THEN "PRIMARY" ELSE hs[i].name
Same(hs, i) == {j \in 1..Len(hs) : OwnName(hs, j) = OwnName(hs, i)}
First(hs, i) == CHOOSE j \in Same(hs, i) : \A k \in Same(hs, i) : j <= k
RECURSIVE Numbered(_, _, _)
Numbered(nm, n, taken) ==
  LET c == nm \o "_" \o ToString(n)
  IN IF c \in taken THEN Numbered(nm, n + 1, taken) ELSE [name |-> c, next |-> n + 1]
\* order: by group of equal names, groups by first appearance
Before2(hs, i, j) == \/ First(hs, i) < First(hs, j)
                     \/ First(hs, i) = First(hs, j) /\ i < j
RECURSIVE NameFrom(_, _, _, _)
NameFrom(hs, done, out, n) ==
  IF done = 1..Len(hs) THEN out
  ELSE LET i == CHOOSE x \in (1..Len(hs)) \ done :
                  \A y \in (1..Len(hs)) \ (done \cup {x}) : Before2(hs, x, y)
           taken == {OwnName(hs, j) : j \in 1..Len(hs)} \cup {out[j] : j \in done}
           c == Numbered(OwnName(hs, i), IF First(hs, i) = i THEN 0 ELSE n, taken)
       IN IF Cardinality(Same(hs, i)) = 1
          THEN NameFrom(hs, done \cup {i}, [out EXCEPT ![i] = OwnName(hs, i)], 0)
          ELSE NameFrom(hs, done \cup {i}, [out EXCEPT ![i] = c.name], c.next)
HduNames(hs) == NameFrom(hs, {}, [i \in 1..Len(hs) |-> ""], 0)

-----------------------------------------------------------------------------
(* Objects. own: what the product lists when it is opened, as a sequence of  *)
(* [name, hdu, part]; a data object brings along the header of its HDU,      *)
(* unless the product has an object of that name.                            *)
OwnPrimary(hs) == LET nm == HduNames(hs)
                  IN [i \in 1..Len(hs) |-> [name |-> nm[i], hdu |-> i, part |-> "data"]]
HasHeaderWord(s) == \E i \in 1..(Len(s) - 5) : SubSeq(s, i, i + 5) = "HEADER"
\* objs: [name, unit: "record"|"byte", at]
Located(hs, o) ==
  LET loc == IF o.unit = "record" THEN (o.at - 1) * Block ELSE o.at - 1
      part == IF HasHeaderWord(o.name) THEN "header" ELSE "data"
      at(i) == IF part = "header" THEN HeaderAt(hs, i) ELSE DataAt(hs, i)
  IN [name |-> o.name, part |-> part,
      hdu |-> CHOOSE i \in 1..Len(hs) : at(i) = loc /\ (part = "data" => hs[i].nbytes > 0)]
OwnLabeled(hs, objs) == [i \in 1..Len(objs) |-> Located(hs, objs[i])]
OwnNames(own) == {own[i].name : i \in 1..Len(own)}
HeaderName(n) == n \o "_HEADER"
Companions(own) ==
  {[name |-> HeaderName(own[i].name), hdu |-> own[i].hdu, part |-> "header",
    of |-> own[i].name] :
     i \in {j \in 1..Len(own) : own[j].part = "data" /\ HeaderName(own[j].name) \notin OwnNames(own)}}
Things(own) == {[name |-> own[i].name, hdu |-> own[i].hdu, part |-> own[i].part, of |-> ""]
                  : i \in 1..Len(own)} \cup Companions(own)
Thing(own, n) == CHOOSE t \in Things(own) : t.name = n

(* History. st: [listed: set of names, held: name -> "no"|"fresh"|"spoiled"] *)
Opened(own) == [listed |-> OwnNames(own),
                held |-> [n \in {t.name : t \in Things(own)} |-> "no"]]
LoadIt(own, st, n) ==
  LET t == Thing(own, n)
      hn == HeaderName(n)
      along == t.part = "data" /\ \E c \in Companions(own) : c.name = hn
  IN [listed |-> st.listed \cup (IF along THEN {hn} ELSE {}),
      held |-> [x \in DOMAIN st.held |->
                  IF x = n \/ (along /\ x = hn) THEN "fresh" ELSE st.held[x]]]
StepOf(own, st, op) ==
  CASE op.op = "get" -> IF st.held[op.name] = "no" THEN LoadIt(own, st, op.name) ELSE st
    [] op.op = "load" -> LoadIt(own, st, op.name)
    [] op.op = "drop" -> [st EXCEPT !.held[op.name] = "no"]
    [] op.op = "spoil" -> [st EXCEPT !.held[op.name] = "spoiled"]
    [] op.op = "all" -> st
Possible(own, st, op) ==
  CASE op.op \in {"get", "load"} -> op.name \in st.listed
    [] op.op \in {"drop", "spoil"} -> op.name \in st.listed /\ st.held[op.name] # "no"

-----------------------------------------------------------------------------
(* Contents                                                                  *)
RECURSIVE Entries(_, _)
Entries(cards, i) ==
  IF i > Len(cards) THEN <<>>
  ELSE LET c == cards[i]
       IN <<[k |-> c.k, v |-> c.v]>>
          \o (IF c.c = "" THEN <<>>
              ELSE <<[k |-> c.k \o "_comment", v |-> [t |-> "str", v |-> c.c]]>>)
          \o Entries(cards, i + 1)
HeaderClauses(h, o) ==
  IF o.kind # "header" THEN {"header:" \o o.kind}
  ELSE Clause("header-cards", o.items = Entries(h.cards, 1))

SInt(s) ==    \* a big-endian two's complement integer of moderate size
  LET r == IF Len(s) > 3 THEN SubSeq(s, Len(s) - 2, Len(s)) ELSE s
      u == UVal([r EXCEPT ![1] = @ % 128])
  IN IF r[1] < 128 THEN u ELSE u - 2 ^ (8 * Len(r) - 1)
Abs(n) == IF n < 0 THEN -n ELSE n
HalfStr(n) == (IF n < 0 THEN "-" ELSE "") \o ToString(Abs(n) \div 2)
              \o (IF Abs(n) % 2 = 1 THEN ".5" ELSE "")
TopFlip(r) == [r EXCEPT ![1] = (@ + 128) % 256]

Pixels(h) == IF h.axes = <<>> THEN 0 ELSE ProdSeq(h.axes)
PixelWidth(h) == Abs(h.bitpix) \div 8
PixelType(h) == IF h.bitpix < 0 THEN "f" \o ToString(PixelWidth(h))
                ELSE IF h.bitpix = 8 THEN "u1" ELSE "i" \o ToString(PixelWidth(h))
Number(sc, r, unsigned8) ==
  LET v == IF unsigned8 THEN r[1] ELSE SInt(r)
  IN IF sc.hasblank /\ v = sc.blank THEN "nan" ELSE HalfStr(sc.z2 + sc.s2 * v)
EqNum(a, b) == IF b = "nan" THEN a = "nan" ELSE a # "nan" /\ RealCanon(a) = RealCanon(b)

ImageClauses(h, o) ==
  IF o.kind # "array" THEN {"image:" \o o.kind}
  ELSE IF h.axes = <<>> THEN Clause("empty", o.data = <<>>)
  ELSE LET w == PixelWidth(h) n == Pixels(h)
           raw(i) == Cut(h.data, (i - 1) * w, w)
       IN Clause("shape", o.shape = Rev(h.axes))
          \cup (IF Len(o.data) # n THEN {"number-of-pixels"}
                ELSE IF h.scale.how = "none"
                THEN Clause("type", o.dtype = PixelType(h))
                     \cup Clause("pixels", \A i \in 1..n : o.data[i] = raw(i))
                ELSE IF h.scale.how = "unsigned"
                THEN Clause("type", o.dtype = "u" \o ToString(w))
                     \cup Clause("pixels", \A i \in 1..n : o.data[i] = TopFlip(raw(i)))
                ELSE Clause("scaled-pixels", \A i \in 1..n :
                       EqNum(o.text[i], Number(h.scale, raw(i), w = 1))))

\* columns: [name, code, rep, cells (pieces per row), w (bytes per piece), off,
\*           how: "none"|"unsigned"|"scaled", sc, many (pieces are an array)]
RECURSIVE ColNames(_, _, _)
ColNames(cols, done, out) ==     \* numbered by group, in order of the columns
  IF done = Len(cols) THEN out
  ELSE LET i == done + 1
           same == {j \in 1..Len(cols) : cols[j].name = cols[i].name}
           names == {cols[j].name : j \in 1..Len(cols)}
           earlier == Cardinality({j \in same : j < i})
           free(k) == cols[i].name \o "_" \o ToString(k) \notin names
           \* the (earlier + 1)th number that is free
           k == CHOOSE x \in 0..(2 * Len(cols)) :
                  free(x) /\ Cardinality({y \in 0..(x - 1) : free(y)}) = earlier
       IN ColNames(cols, i, Append(out,
            IF Cardinality(same) = 1 THEN cols[i].name
            ELSE cols[i].name \o "_" \o ToString(k)))
\* one leaf per column of the frame: [name, c, piece]
RECURSIVE LeafCols(_, _, _)
LeafCols(cols, names, i) ==
  IF i > Len(cols) THEN <<>>
  ELSE (IF ~cols[i].many THEN <<[name |-> names[i], c |-> cols[i], piece |-> 0]>>
        ELSE [j \in 1..cols[i].cells |->
                [name |-> names[i] \o "_" \o ToString(j - 1), c |-> cols[i], piece |-> j - 1]])
       \o LeafCols(cols, names, i + 1)
RECURSIVE NoTrailing(_, _)
NoTrailing(s, b) == IF s # <<>> /\ s[Len(s)] = b
                    THEN NoTrailing(SubSeq(s, 1, Len(s) - 1), b) ELSE s
CodeType(c) == CASE c = "B" -> "u1" [] c = "I" -> "i2" [] c = "J" -> "i4"
                 [] c = "K" -> "i8" [] c = "E" -> "f4" [] c = "D" -> "f8"
                 [] c = "C" -> "c8" [] c = "M" -> "c16"
CellOk(lf, o, i, row) ==
  LET c == lf.c
      r == Cut(row, c.off + lf.piece * c.w, c.w)
  IN CASE c.code = "A" -> o.data[i] = NoTrailing(r, 0)
       [] c.code = "L" -> o.data[i] = << IF r[1] = 84 THEN 1 ELSE 0 >>
       [] c.code = "X" -> o.data[i] =
            << Bit(row[c.off + lf.piece \div 8 + 1], lf.piece % 8) >>
       [] c.how = "unsigned" -> o.data[i] = TopFlip(r)
       [] c.how = "scaled" -> EqNum(o.text[i], Number(c.sc, r, c.code = "B"))
       [] OTHER -> o.data[i] = r
RECURSIVE DToE(_)
DToE(s) == IF s = "" THEN ""
           ELSE (IF Ch(s, 1) = "D" THEN "E" ELSE Ch(s, 1)) \o DToE(SubSeq(s, 2, Len(s)))
RECURSIVE Trimmed(_)
Trimmed(s) == IF s = "" THEN s
              ELSE IF Ch(s, 1) = " " THEN Trimmed(SubSeq(s, 2, Len(s)))
              ELSE IF Ch(s, Len(s)) = " " THEN Trimmed(SubSeq(s, 1, Len(s) - 1)) ELSE s
TextCellOk(lf, o, i, line) ==
  LET f == SubSeq(line, lf.c.off + 1, lf.c.off + lf.c.w)
  IN IF lf.c.code = "A" THEN o.text[i] = f
     ELSE EqNum(o.text[i], DToE(Trimmed(f)))
TableClauses(h, o) ==
  LET leaves == LeafCols(h.cols, ColNames(h.cols, 0, <<>>), 1)
  IN IF o.kind # "table" THEN {"table:" \o o.kind}
     ELSE IF o.nrows # h.nrows THEN {"number-of-rows"}
     ELSE IF Len(o.cols) # Len(leaves) THEN {"number-of-columns"}
     ELSE UNION {
       LET lf == leaves[j] oc == o.cols[j]
       IN Clause("column-name", oc.name = lf.name)
          \cup (IF Len(oc.data) # h.nrows THEN {"rows"}
                ELSE IF h.kind = "table"
                THEN Clause("cells-" \o lf.c.code, \A i \in 1..h.nrows :
                       TextCellOk(lf, oc, i, h.lines[i]))
                ELSE Clause("cells-" \o lf.c.code, \A i \in 1..h.nrows :
                       CellOk(lf, oc, i, Cut(h.data, (i - 1) * h.rowbytes, h.rowbytes)))
                     \cup Clause("column-type",
                       h.nrows > 0 =>
                       CASE lf.c.code = "A" -> oc.kind = "str"
                         [] lf.c.code \in {"L", "X"} -> oc.kind = "bool"
                         [] lf.c.how = "unsigned" -> oc.dtype = "u" \o ToString(lf.c.w)
                         [] lf.c.how = "scaled" -> TRUE
                         [] OTHER -> oc.dtype = CodeType(lf.c.code)))
       : j \in 1..Len(leaves)}
ObjectClauses(h, part, o) ==
  IF part = "header" THEN HeaderClauses(h, o)
  ELSE IF h.kind = "image" THEN ImageClauses(h, o) ELSE TableClauses(h, o)

-----------------------------------------------------------------------------
(* A session: the product is opened, then used.                              *)
OwnOf(e) == IF e.mode = "primary" THEN OwnPrimary(e.hdus) ELSE OwnLabeled(e.hdus, e.objs)
Names2(own) == [i \in 1..Len(own) |-> own[i].name]
Plain(e) == \A i, j \in 1..Len(e.hdus) : i # j => OwnName(e.hdus, i) # OwnName(e.hdus, j)
RECURSIVE OpClauses(_, _, _, _)
OpClauses(e, own, st, i) ==
  IF i > Len(e.ops) THEN {}
  ELSE LET op == e.ops[i]
           nx == StepOf(own, st, op)
           t == Thing(own, op.name)
           o == op.obs
           why == IF op.op \in {"drop", "spoil"} THEN Clause(op.op, o.kind = "done")
                  ELSE Clause("spoiled", o.spoiled = (nx.held[op.name] = "spoiled"))
                       \cup (IF nx.held[op.name] = "spoiled" THEN {}
                             ELSE ObjectClauses(e.hdus[t.hdu], t.part, o))
       IN IF o.kind = "exc" THEN {op.op \o "-fails"}
          ELSE why \cup Clause("listed", Range(op.keys) = nx.listed /\ Len(op.keys) = Cardinality(nx.listed))
               \cup OpClauses(e, own, nx, i + 1)
SessionClauses(e) ==
  LET own == OwnOf(e)
  IN IF e.opened.kind # "opened" THEN {"opens:" \o e.opened.kind}
     ELSE Clause("names", Range(e.opened.keys) = OwnNames(own)
                          /\ Len(e.opened.keys) = Len(own))
          \cup Clause("file-order", e.mode = "primary" /\ Plain(e) => e.opened.keys = Names2(own))
          \cup (IF e.mode # "primary" THEN {}
                ELSE IF Len(e.opened.meta) # Len(own) THEN {"metadata"}
                ELSE UNION {UNION {
                   IF e.opened.meta[j].name = own[i].name
                   THEN {"metadata-" \o w : w \in HeaderClauses(e.hdus[own[i].hdu], e.opened.meta[j].header)}
                   ELSE {} : j \in 1..Len(e.opened.meta)} : i \in 1..Len(own)})
          \cup OpClauses(e, own, Opened(own), 1)
=============================================================================
