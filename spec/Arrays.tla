------------------------------- MODULE Arrays -------------------------------
(* PDS3 ARRAY and HISTOGRAM objects. An item of a structured array is        *)
(* described by a tree of nodes in label order:                              *)
(*   [k |-> "el",   name, start, type, w]                                    *)
(*   [k |-> "coll", start, bytes, sub]     a group of nodes                  *)
(*   [k |-> "arr",  start, n, sub]         n adjacent copies of sub          *)
(* START_BYTEs are relative to the enclosing object and count from 1.        *)
EXTENDS TextTable

RECURSIVE Reach(_)
Far(nodes) == {0} \cup {nodes[i].start - 1 + Reach(nodes[i]) : i \in 1..Len(nodes)}
Largest(s) == CHOOSE x \in s : \A y \in s : y <= x
\* distance between the starts of adjacent copies of these nodes
Pitch(nodes) == Largest(Far(nodes))
Reach(nd) == IF nd.k = "el" THEN nd.w
              ELSE IF nd.k = "coll" THEN Max2(nd.bytes, Pitch(nd.sub))
              ELSE nd.n * Pitch(nd.sub)

RECURSIVE LeavesOf(_, _)
LeavesSeq(nodes, base) == Flat([i \in 1..Len(nodes) |-> LeavesOf(nodes[i], base)])
LeavesOf(nd, base) ==
  LET at == base + nd.start - 1
  IN IF nd.k = "el"
     THEN << [name |-> nd.name, type |-> nd.type, off |-> at, w |-> nd.w] >>
     ELSE IF nd.k = "coll" THEN LeavesSeq(nd.sub, at)
     ELSE Flat([i \in 1..nd.n |-> LeavesSeq(nd.sub, at + (i - 1) * Pitch(nd.sub))])

RECURSIVE HasNested(_)
HasNested(nodes) == \E i \in 1..Len(nodes) :
                      nodes[i].k = "arr" \/ (nodes[i].k = "coll" /\ HasNested(nodes[i].sub))

HowMany(e) == ProdSeq(e.dims)
ItemRaw(e, leaf, pitch, i) == Cut(e.file, e.start + (i - 1) * pitch + leaf.off, leaf.w)
Raws(e, leaf, pitch) == [i \in 1..HowMany(e) |-> ItemRaw(e, leaf, pitch, i)]

\* numerals of a text: what stands between blanks, commas and line ends
Gap == {" ", "\t", ",", "\n", "\r"}
RECURSIVE Numerals(_, _, _, _)
Numerals(t, i, from, most) ==
  IF most = 0 THEN <<>>
  ELSE IF i > Len(t)
  THEN IF from < i THEN <<SubSeq(t, from, i - 1)>> ELSE <<>>
  ELSE IF Ch(t, i) \in Gap
  THEN (IF from < i THEN <<SubSeq(t, from, i - 1)>> ELSE <<>>)
       \o Numerals(t, i + 1, i + 1, IF from < i THEN most - 1 ELSE most)
  ELSE Numerals(t, i + 1, from, most)

\* character data are bytes without their trailing NULs, also in arrays
LeafClauses(leaf, o, raws) ==
  ColumnClauses([leaf EXCEPT !.name = o.name], o, raws)

\* e: [kind, dims, start, file, ...]; e.obs as projected
FlatClauses(e) ==
  LET o == e.obs leaf == [name |-> "", type |-> e.type, off |-> 0, w |-> e.w]
  IN IF o.kind # "leafarray" THEN {"loaded-as-array:" \o o.kind}
     ELSE Clause("shape", o.shape = e.dims)
          \cup (IF Len(o.leaves) # 1 THEN {"number-of-elements"}
                ELSE LeafClauses(leaf, o.leaves[1], Raws(e, leaf, e.w)))
StructClauses(e) ==
  LET o == e.obs
      leaves == LeavesSeq(e.nodes, 0)
      pitch == Pitch(e.nodes)
  IN IF o.kind # "leafarray" THEN {"loaded-as-array:" \o o.kind}
     ELSE Clause("shape", o.shape = e.dims)
          \cup (IF Len(o.leaves) # Len(leaves) THEN {"number-of-elements"}
                ELSE UNION {
                  Clause("element-name", o.leaves[j].name = leaves[j].name)
                  \cup LeafClauses(leaves[j], o.leaves[j], Raws(e, leaves[j], pitch))
                  : j \in 1..Len(leaves)})
AsciiClauses(e) ==
  LET o == e.obs
      want == Numerals(SubSeq(e.text, e.start + 1, Len(e.text)), 1, 1, HowMany(e))
  IN IF o.kind # "numbers" THEN {"loaded-as-array:" \o o.kind}
     ELSE Clause("shape", o.shape = e.dims)
          \cup (IF Len(o.data) # Len(want) THEN {"number-of-elements"}
                ELSE Clause("numbers", \A i \in 1..Len(want) :
                       RealCanon(o.data[i]) = RealCanon(want[i])))
          \cup Clause("integers-as-reals", e.type = "ASCII_INTEGER" => o.int)
HistClauses(e) ==
  LET o == e.obs n == e.dims[1]
      Nm(i) == IF n = 1 THEN e.name ELSE e.name \o "_" \o ToString(i - 1)
  IN IF o.kind # "table" THEN {"loaded-as-table:" \o o.kind}
     ELSE Clause("one-row", o.nrows = 1)
          \cup (IF Len(o.cols) # n THEN {"number-of-bins"}
                ELSE UNION {ColumnClauses(
                  [name |-> Nm(i), type |-> e.type, off |-> 0, w |-> e.w], o.cols[i],
                  << Cut(e.file, e.start + (i - 1) * e.w, e.w) >>) : i \in 1..n})
ArrayClauses(e) ==
  CASE e.kind = "flat" -> FlatClauses(e)
    [] e.kind = "struct" -> StructClauses(e)
    [] e.kind = "ascii" -> AsciiClauses(e)
    [] e.kind = "hist" -> HistClauses(e)
=============================================================================
