-------------------------------- MODULE Pds4 --------------------------------
(* PDS4 products: a label describes arrays, tables and headers in data files *)
(* and each is loaded under its identifier. Files are sequences of bytes.    *)
(*                                                                           *)
(* A record of a table is described by nodes in label order:                 *)
(*   [k |-> "f", name, type, loc, len]             a field                   *)
(*   [k |-> "g", name, reps, loc, len, sub]        a group, repeated         *)
(* Locations count from 1 in the enclosing group or record; len of a group   *)
(* is that of all its repetitions. Fields of delimited tables have neither:  *)
(* values follow each other.                                                 *)
EXTENDS TextTable

Little4 == {"IEEE754LSBSingle", "IEEE754LSBDouble", "SignedLSB2", "SignedLSB4",
            "SignedLSB8", "UnsignedLSB2", "UnsignedLSB4", "UnsignedLSB8",
            "ComplexLSB8", "ComplexLSB16", "SignedByte", "UnsignedByte"}
Code(t) ==
  CASE t \in {"SignedByte"} -> "i1"
    [] t \in {"UnsignedByte"} -> "u1"
    [] t \in {"SignedMSB2", "SignedLSB2"} -> "i2"
    [] t \in {"SignedMSB4", "SignedLSB4"} -> "i4"
    [] t \in {"SignedMSB8", "SignedLSB8"} -> "i8"
    [] t \in {"UnsignedMSB2", "UnsignedLSB2"} -> "u2"
    [] t \in {"UnsignedMSB4", "UnsignedLSB4"} -> "u4"
    [] t \in {"UnsignedMSB8", "UnsignedLSB8"} -> "u8"
    [] t \in {"IEEE754MSBSingle", "IEEE754LSBSingle"} -> "f4"
    [] t \in {"IEEE754MSBDouble", "IEEE754LSBDouble"} -> "f8"
    [] t \in {"ComplexMSB8", "ComplexLSB8"} -> "c8"
    [] t \in {"ComplexMSB16", "ComplexLSB16"} -> "c16"
    [] OTHER -> ""
IsBinary(t) == Code(t) # ""
WidthOf(t) ==
  LET c == Code(t)
  IN CASE c \in {"i1", "u1"} -> 1 [] c \in {"i2", "u2"} -> 2
       [] c \in {"i4", "u4", "f4"} -> 4 [] c = "c16" -> 16 [] OTHER -> 8
\* an element's bytes, most significant first; complex: real part, then imaginary
Canon(t, r) ==
  IF t \notin Little4 THEN r
  ELSE IF Code(t) \in {"c8", "c16"}
  THEN LET h == Len(r) \div 2
       IN Rev(SubSeq(r, 1, h)) \o Rev(SubSeq(r, h + 1, Len(r)))
  ELSE Rev(r)

-----------------------------------------------------------------------------
(* Identifiers: the local identifier, else the name, else one made up from   *)
(* the kind and how many unnamed or named structures of the kind preceded;   *)
(* blanks become underscores, repeated ones are numbered.                    *)
\* structures: [kind, lid, name]
Before4(ss, i) == Cardinality({j \in 1..(i - 1) : ss[j].kind = ss[i].kind})
Upper4(k) == CASE k = "array" -> "ARRAY" [] k = "table" -> "TABLE" [] OTHER -> "HEADER"
RECURSIVE Underscored(_)
Underscored(s) == IF s = "" THEN ""
                  ELSE (IF Ch(s, 1) = " " THEN "_" ELSE Ch(s, 1))
                       \o Underscored(SubSeq(s, 2, Len(s)))
IdOf(ss, i) ==
  Underscored(IF ss[i].lid # "" THEN ss[i].lid ELSE IF ss[i].name # "" THEN ss[i].name
              ELSE Upper4(ss[i].kind) \o "_" \o ToString(Before4(ss, i)))
Ids(ss) ==
  LET base == [i \in 1..Len(ss) |-> IdOf(ss, i)]
  IN [i \in 1..Len(ss) |->
        IF \E j \in 1..Len(ss) : j # i /\ base[j] = base[i]
        THEN base[i] \o "_" \o ToString(Cardinality({j \in 1..(i - 1) : base[j] = base[i]}))
        ELSE base[i]]

-----------------------------------------------------------------------------
(* Arrays: axes in the order of their sequence numbers, the last fastest.    *)
AxisOf(axes, q) == CHOOSE i \in 1..Len(axes) : axes[i].seq = q
Shape4(axes) == [q \in 1..Len(axes) |-> axes[AxisOf(axes, q)].n]
\* bits of a mask given as text, extended to n bits on the left
MaskBits(m, n) == [i \in 1..n |->
  IF i <= n - Len(m) THEN 0 ELSE IF Ch(m, i - (n - Len(m))) = "1" THEN 1 ELSE 0]
Masked4(el, m, specials) ==
  IF m = "" \/ el \in Range(specials) THEN BitsOf(el)
  ELSE LET b == BitsOf(el) k == MaskBits(m, Len(b))
       IN [i \in 1..Len(b) |-> b[i] * k[i]]
ArrayElem(e, i) == Canon(e.type, Cut(e.file, e.offset + (i - 1) * WidthOf(e.type), WidthOf(e.type)))
Array4Clauses(e) ==
  LET o == e.obs n == ProdSeq(Shape4(e.axes))
  IN IF o.kind # "array" THEN {"loaded-as-array:" \o o.kind}
     ELSE Clause("shape", o.shape = Shape4(e.axes))
          \cup Clause("dtype:" \o e.type, o.dtype = Code(e.type))
          \cup (IF Len(o.data) # n THEN {"number-of-elements"}
                ELSE Clause("elements:" \o e.type, \A i \in 1..n :
                  BitsOf(o.data[i]) = Masked4(ArrayElem(e, i), e.mask, e.specials)))

-----------------------------------------------------------------------------
(* Tables.                                                                   *)
\* delimited records: locations and lengths in values
RECURSIVE Values(_)
Values(nd) == IF nd.k = "f" THEN 1
              ELSE nd.reps * SumSeq([i \in 1..Len(nd.sub) |-> Values(nd.sub[i])])
RECURSIVE InValues(_)
InValues(nodes) ==
  [i \in 1..Len(nodes) |->
     LET at == 1 + SumSeq([j \in 1..(i - 1) |-> Values(nodes[j])])
     IN IF nodes[i].k = "f"
        THEN [k |-> "f", name |-> nodes[i].name, type |-> nodes[i].type, loc |-> at, len |-> 1]
        ELSE [k |-> "g", name |-> nodes[i].name, reps |-> nodes[i].reps, loc |-> at,
              len |-> Values(nodes[i]), sub |-> InValues(nodes[i].sub)]]

\* colons of names become underscores (numpy's record arrays have no use for them)
RECURSIVE NoColons(_)
NoColons(s) == IF s = "" THEN ""
               ELSE (IF Ch(s, 1) = ":" THEN "_" ELSE Ch(s, 1)) \o NoColons(SubSeq(s, 2, Len(s)))
\* siblings with the same name are told apart by their number
Sibling(nodes, i) ==
  LET same == {j \in 1..Len(nodes) : nodes[j].k = "f" /\ nodes[j].name = nodes[i].name}
  IN IF Cardinality(same) = 1 THEN ""
     ELSE " [" \o ToString(Cardinality({j \in same : j < i})) \o "]"

\* [name, type, off, w, gs] with gs = the enclosing groups [at, n, step]
RECURSIVE Fields4(_, _, _)
Fields4(nodes, gs, prefix) ==
  Flat([i \in 1..Len(nodes) |->
    LET nd == nodes[i]
    IN IF nd.k = "f"
       THEN << [name |-> prefix \o NoColons(nd.name) \o Sibling(nodes, i), type |-> nd.type,
                off |-> nd.loc - 1, w |-> nd.len, gs |-> gs] >>
       ELSE Fields4(nd.sub,
              Append(gs, [at |-> nd.loc - 1, n |-> nd.reps, step |-> nd.len \div nd.reps]),
              IF nd.name = "" THEN prefix ELSE prefix \o nd.name \o ", ")])

\* where the repetitions of a field are, relative to an ungrouped one
RECURSIVE Places(_)
Places(gs) ==
  IF gs = <<>> THEN <<0>>
  ELSE LET g == Head(gs) rest == Places(Tail(gs))
       IN Flat([i \in 1..g.n |-> [j \in 1..Len(rest) |-> g.at + (i - 1) * g.step + rest[j]]])
\* columns: [name, type, off, w]
Columns4(nodes) ==
  LET fs == Fields4(nodes, <<>>, "")
  IN Flat([i \in 1..Len(fs) |->
       LET p == Places(fs[i].gs)
       IN [j \in 1..Len(p) |->
            [name |-> IF fs[i].gs = <<>> THEN fs[i].name
                      ELSE fs[i].name \o "_" \o ToString(j - 1),
             type |-> fs[i].type, off |-> fs[i].off + p[j], w |-> fs[i].w]]])

\* delimited text: a quote at the start of a value opens one that ends at a
\* quote before the next delimiter or the end
RECURSIVE Values4(_, _, _, _, _, _)
Values4(s, sep, i, state, from, out) ==
  IF i > Len(s)
  THEN Append(out, IF state = "closed" THEN SubSeq(s, from, i - 2) ELSE SubSeq(s, from, i - 1))
  ELSE CASE state = "start" ->
              IF s[i] = sep THEN Values4(s, sep, i + 1, "start", i + 1, Append(out, <<>>))
              ELSE IF s[i] = 34 THEN Values4(s, sep, i + 1, "quoted", i + 1, out)
              ELSE Values4(s, sep, i + 1, "plain", from, out)
         [] state = "plain" ->
              IF s[i] = sep
              THEN Values4(s, sep, i + 1, "start", i + 1, Append(out, SubSeq(s, from, i - 1)))
              ELSE Values4(s, sep, i + 1, "plain", from, out)
         [] state = "quoted" ->
              Values4(s, sep, i + 1, IF s[i] = 34 THEN "closed" ELSE "quoted", from, out)
         [] state = "closed" ->
              IF s[i] = sep
              THEN Values4(s, sep, i + 1, "start", i + 1, Append(out, SubSeq(s, from, i - 2)))
              ELSE Values4(s, sep, i + 1, "quoted", from, out)
SplitRow(s, sep) == Values4(s, sep, 1, "start", 1, <<>>)

SepOf(name) == CASE name = "Comma" -> 44 [] name = "Horizontal Tab" -> 9
                 [] name = "Semicolon" -> 59 [] name = "Vertical Bar" -> 124
\* the records of a delimited table
RECURSIVE RecordsOf(_, _, _, _, _)
RecordsOf(f, crlf, i, from, most) ==
  IF most = 0 THEN <<>>
  ELSE IF i > Len(f) THEN <<SubSeq(f, from, Len(f))>>
  ELSE IF f[i] = 10 /\ (~crlf \/ (i > from /\ f[i - 1] = 13))
  THEN <<SubSeq(f, from, IF crlf THEN i - 2 ELSE i - 1)>>
       \o RecordsOf(f, crlf, i + 1, i + 1, most - 1)
  ELSE RecordsOf(f, crlf, i + 1, from, most)

Ascii == " !\"#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[\\]^_`abcdefghijklmnopqrstuvwxyz{|}~"
RECURSIVE Text4(_)
Text4(r) == IF r = <<>> THEN ""
            ELSE (IF r[1] \in 32..126 THEN Ch(Ascii, r[1] - 31) ELSE "?") \o Text4(Tail(r))
RECURSIVE TrimL(_)
TrimL(r) == IF r # <<>> /\ r[1] \in {32, 9} THEN TrimL(Tail(r)) ELSE r
RECURSIVE TrimR(_)
TrimR(r) == IF r # <<>> /\ r[Len(r)] \in {32, 9, 0} THEN TrimR(SubSeq(r, 1, Len(r) - 1)) ELSE r
Trim(r) == TrimR(TrimL(r))
RECURSIVE NoZeros(_)
NoZeros(s) == IF Len(s) > 1 /\ Ch(s, 1) = "0" THEN NoZeros(SubSeq(s, 2, Len(s))) ELSE s
LowerHex == [c \in {"A", "B", "C", "D", "E", "F"} |->
  CASE c = "A" -> "a" [] c = "B" -> "b" [] c = "C" -> "c" [] c = "D" -> "d"
    [] c = "E" -> "e" [] c = "F" -> "f"]
RECURSIVE Lower4(_)
Lower4(s) == IF s = "" THEN ""
             ELSE (IF Ch(s, 1) \in DOMAIN LowerHex THEN LowerHex[Ch(s, 1)] ELSE Ch(s, 1))
                  \o Lower4(SubSeq(s, 2, Len(s)))

BaseTypes == {"ASCII_Numeric_Base2", "ASCII_Numeric_Base8", "ASCII_Numeric_Base16"}
BaseKey(t) == CASE t = "ASCII_Numeric_Base2" -> "bin" [] t = "ASCII_Numeric_Base8" -> "oct"
                [] OTHER -> "hex"
Truth(x) == x \in {"true", "1"}
BitStrings == {"SignedBitString", "UnsignedBitString"}

(* What a column of values of a type is. o: [name, kind, dtype, data (the    *)
(* bytes of numbers or texts), text (numerals), bin, oct, hex]; missing      *)
(* values have the text "".                                                  *)
Column4(t, raws, o) ==
  LET n == Len(raws)
      w == [i \in 1..n |-> Trim(raws[i])]
      x == [i \in 1..n |-> Text4(w[i])]
      full == \A i \in 1..n : w[i] # <<>>
      Each(P(_)) == \A i \in 1..n : IF w[i] = <<>> THEN o.text[i] = "" ELSE P(i)
      IsInt4 == Clause("integers-as-" \o o.kind, full => o.kind = "int")
  IN IF Len(o.text) # n THEN {"number-of-rows"}
     ELSE CASE IsBinary(t) ->
                 Clause("dtype:" \o t, o.dtype = Code(t))
                 \cup Clause("values:" \o t, o.data = [i \in 1..n |-> Canon(t, raws[i])])
            [] t \in {"ASCII_Integer", "ASCII_NonNegative_Integer"} ->
                 IsInt4 \cup Clause("integers", Each(LAMBDA i :
                   o.text[i] # "" /\ RealCanon(o.text[i]) = RealCanon(x[i])))
            [] t \in BaseTypes ->
                 IsInt4 \cup Clause("based-integers", Each(LAMBDA i :
                   o[BaseKey(t)][i] = NoZeros(Lower4(x[i]))))
            [] t = "ASCII_Real" ->
                 Clause("reals-as-" \o o.kind, o.kind = "real")
                 \cup Clause("reals", Each(LAMBDA i :
                   o.text[i] # "" /\ RealCanon(o.text[i]) = RealCanon(x[i])))
            [] t = "ASCII_Boolean" ->
                 Clause("booleans-as-" \o o.kind, full => o.kind = "bool")
                 \cup Clause("booleans", Each(LAMBDA i :
                   o.text[i] = IF Truth(x[i]) THEN "True" ELSE "False"))
            [] t \in BitStrings ->
                 Clause("bit-strings-as-" \o o.kind, o.kind = "bytes")
                 \cup Clause("bit-strings", \A i \in 1..n :
                        StripNul(o.data[i]) = StripNul(raws[i]))
            [] OTHER ->
                 Clause("text-as-" \o o.kind, o.kind = "text")
                 \cup Clause("texts", \A i \in 1..n : Trim(o.data[i]) = w[i])

\* uniformly sampled fields, in quarters
RECURSIVE Power(_, _)
Power(b, k) == IF k = 0 THEN 1 ELSE b * Power(b, k - 1)
Sampled(u, j) == IF u.scale = "logarithmic" THEN u.first * Power(u.interval \div 4, j - 1)
                 ELSE u.first + (j - 1) * u.interval
Quarters(q) ==
  LET a == IF q < 0 THEN -q ELSE q
      f == a % 4
  IN (IF q < 0 THEN "-" ELSE "") \o ToString(a \div 4)
     \o (CASE f = 0 -> ".0" [] f = 1 -> ".25" [] f = 2 -> ".5" [] f = 3 -> ".75")
UniformColumn(u, n, o) ==
  Clause("sampled-name", o.name = u.name)
  \cup (IF Len(o.text) # n THEN {"number-of-rows"}
        ELSE Clause("sampled", \A j \in 1..n :
               o.text[j] # "" /\ RealCanon(o.text[j]) = RealCanon(Quarters(Sampled(u, j)))))

\* the raw values of a column
RawsOf(e, c, rows) ==
  IF e.form = "Delimited"
  THEN [r \in 1..Len(rows) |-> IF c.off + 1 <= Len(rows[r]) THEN rows[r][c.off + 1] ELSE <<>>]
  ELSE [r \in 1..e.records |-> Cut(e.file, e.offset + (r - 1) * e.reclen + c.off, c.w)]
RowsOf(e) ==
  IF e.form # "Delimited" THEN <<>>
  ELSE LET hi == IF e.length = 0 THEN Len(e.file) ELSE e.offset + e.length
           recs == RecordsOf(SubSeq(e.file, e.offset + 1, hi), e.crlf, 1, 1, e.records)
       IN [r \in 1..Len(recs) |-> SplitRow(recs[r], SepOf(e.sep))]
Table4Clauses(e) ==
  LET o == e.obs
      nodes == IF e.form = "Delimited" THEN InValues(e.nodes) ELSE e.nodes
      cs == Columns4(nodes)
      k == Len(e.uniform)
      rows == RowsOf(e)
  IN IF o.kind # "table" THEN {"loaded-as-table:" \o o.kind}
     ELSE IF o.nrows # e.records THEN {"number-of-rows"}
     ELSE IF Len(o.cols) # k + Len(cs) THEN {"number-of-columns"}
     ELSE UNION ({UniformColumn(e.uniform[i], e.records, o.cols[i]) : i \in 1..k}
                 \cup {Clause("field-name", o.cols[k + i].name = cs[i].name)
                       \cup Column4(cs[i].type, RawsOf(e, cs[i], rows), o.cols[k + i])
                       : i \in 1..Len(cs)})

Header4Clauses(e) ==
  IF e.obs.kind # "bytes" THEN {"loaded-as-header:" \o e.obs.kind}
  ELSE Clause("header", e.obs.data = Cut(e.file, e.offset, e.length))

-----------------------------------------------------------------------------
(* Metadata: every element of the label, by tag. tree: [tag, text, sub].     *)
(* Texts on one line have their blanks collapsed; others are as they are.    *)
White == {" ", "\t", "\n", "\r"}
RECURSIVE Squeeze(_, _)
Squeeze(s, gap) ==
  IF s = "" THEN ""
  ELSE IF Ch(s, 1) \in White THEN Squeeze(SubSeq(s, 2, Len(s)), TRUE)
  ELSE (IF gap THEN " " ELSE "") \o Ch(s, 1) \o Squeeze(SubSeq(s, 2, Len(s)), FALSE)
Collapsed(s) == LET q == Squeeze(s, FALSE)
                IN IF Len(q) > 0 /\ Ch(q, 1) = " " THEN SubSeq(q, 2, Len(q)) ELSE q
RECURSIVE TextLines(_, _)
TextLines(s, seen) ==          \* number of lines with something on them
  IF s = "" THEN IF seen THEN 1 ELSE 0
  ELSE IF Ch(s, 1) = "\n"
  THEN (IF seen THEN 1 ELSE 0) + TextLines(SubSeq(s, 2, Len(s)), FALSE)
  ELSE TextLines(SubSeq(s, 2, Len(s)), seen \/ Ch(s, 1) \notin White)
\* elements with nothing in them have no text
TextOf(s) == IF TextLines(s, FALSE) = 1 THEN Collapsed(s)
             ELSE IF TextLines(s, FALSE) = 0 THEN "" ELSE s
Tagged(sub, t) == SelectSeq(sub, LAMBDA x : x.tag = t)
RECURSIVE SameElement(_, _)
SameElement(w, g) ==
  /\ w.tag = g.tag
  /\ IF w.sub = <<>> THEN g.sub = <<>> /\ g.text = TextOf(w.text)
     ELSE /\ Len(w.sub) = Len(g.sub)
          /\ \A t \in {w.sub[i].tag : i \in 1..Len(w.sub)} :
               LET a == Tagged(w.sub, t) b == Tagged(g.sub, t)
               IN Len(a) = Len(b) /\ \A i \in 1..Len(a) : SameElement(a[i], b[i])
RECURSIVE LeavesWith(_, _)
LeavesWith(tree, t) ==
  IF tree.sub = <<>> THEN IF tree.tag = t THEN <<TextOf(tree.text)>> ELSE <<>>
  ELSE Flat([i \in 1..Len(tree.sub) |-> LeavesWith(tree.sub[i], t)])
MetaClauses(e) ==
  Clause("metadata", SameElement(e.label, e.obs))
  \cup Clause("keyword", \A i \in 1..Len(e.asked) :
         LET all == LeavesWith(e.label, e.asked[i].key)
         IN e.asked[i].value \in Range(all) /\ (Len(all) = 1 => e.asked[i].value = all[1]))

Clauses4(e) ==
  CASE e.op = "open" -> Clause("identifiers", e.keys = Append(Ids(e.structures), "label"))
    [] e.op = "array" -> Array4Clauses(e)
    [] e.op = "table" -> Table4Clauses(e)
    [] e.op = "header" -> Header4Clauses(e)
    [] e.op = "meta" -> MetaClauses(e)
=============================================================================
