------------------------------- MODULE Layout ------------------------------
(* Where in its file an object is, what a product calls its objects, and     *)
(* where an attached label ends.                                             *)
EXTENDS Samples

(* --- C11: the location a pointer states, as a 0-based byte offset --- *)
RecordSize(o, fileRB, prodRB) ==
  IF o.rb > 0 THEN o.rb ELSE IF fileRB > 0 THEN fileRB ELSE prodRB

Start(o, fileRB, prodRB) ==
  CASE o.loc.k = "none"  -> 0
    [] o.loc.k = "bytes" -> o.loc.v - 1
    [] o.loc.k = "rec"   -> (o.loc.v - 1) * RecordSize(o, fileRB, prodRB)

(* --- C08: names --- *)
Times(names, i) == Cardinality({j \in 1..Len(names) : names[j] = names[i]})
Before(names, i) == Cardinality({j \in 1..(i - 1) : names[j] = names[i]})
Numbered(names) ==
  [i \in 1..Len(names) |->
     IF Times(names, i) = 1 THEN names[i]
     ELSE names[i] \o "_" \o ToString(Before(names, i))]

\* the names in the order in which a product lists them: those of the
\* outermost level of the label first, otherwise in the order of the label
Listing(names, levels) ==
  LET at(v) == SelectSeq([i \in 1..Len(names) |-> i],
                         LAMBDA i : levels[i] = v)
      ix == at(0) \o at(1)
  IN [i \in 1..Len(ix) |-> names[ix[i]]]

(* --- what an object of each kind holds, given the file and its start --- *)
Digit(b) == b - 48
RECURSIVE Decimal(_)
Decimal(s) == IF s = <<>> THEN 0
              ELSE Decimal(SubSeq(s, 1, Len(s) - 1)) * 10 + Digit(s[Len(s)])
AsI8(v) == <<0, 0, 0, 0, v \div 16777216, (v \div 65536) % 256,
             (v \div 256) % 256, v % 256>>

Elements(file, at, n, w) == [i \in 1..n |-> Cut(file, at + (i - 1) * w, w)]

Holds(o, file, at) ==
  CASE o.kind = "image" ->
         [kind |-> "array", dtype |-> "u" \o ToString(o.w),
          shape |-> o.shape,
          data |-> Elements(file, at, ProdSeq(o.shape), o.w)]
    [] o.kind = "table" ->
         [kind |-> "table", nrows |-> o.shape[1],
          cols |-> <<[name |-> o.col, kind |-> "num",
                      dtype |-> "u" \o ToString(o.w),
                      data |-> Elements(file, at, o.shape[1], o.w)]>>]
    [] o.kind = "ascii" ->
         [kind |-> "table", nrows |-> o.shape[1],
          cols |-> <<[name |-> o.col, kind |-> "num", dtype |-> "i8",
                      data |-> [i \in 1..o.shape[1] |->
                        AsI8(Decimal(Cut(file, at + (i - 1) * 5, 3)))]]>>]
    [] o.kind = "array" ->
         [kind |-> "array", dtype |-> "u" \o ToString(o.w),
          shape |-> o.shape,
          data |-> Elements(file, at, ProdSeq(o.shape), o.w)]
    [] o.kind = "header" ->
         [kind |-> "codes", codes |-> Cut(file, at, o.shape[1])]

(* --- C10: where a label ends --- *)
(* A file is a sequence of tokens [k, n]: kinds "text" and "eol" of the      *)
(* label, "end" for an END statement alone on its line (the letters only),   *)
(* "junk" for anything after it; n is the number of bytes.                   *)
EndAt(toks) == CHOOSE i \in 1..Len(toks) :
                 toks[i].k = "end" /\ \A j \in 1..(i - 1) : toks[j].k # "end"
RECURSIVE SizeTo(_, _)
SizeTo(toks, i) == IF i = 0 THEN 0 ELSE SizeTo(toks, i - 1) + toks[i].n
LabelSize(toks) == SizeTo(toks, EndAt(toks))
=============================================================================
