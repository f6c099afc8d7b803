-------------------------------- MODULE Edits -------------------------------
(* Editing a product's metadata: what lookups and (re)loads give after any   *)
(* sequence of edits, announcements (load_metadata_changes), lookups and     *)
(* loads. The metadata is a tree of entries as in Label.tla; an object's     *)
(* value is a function of the tree and of the bytes of its file.             *)
EXTENDS Label

\* ---------------------------------------------------------------- edits ----
\* m[k] = v: the first entry of that key is replaced in its place, others go;
\* a new key goes to the end
SetKey(es, k, v) ==
  LET O == Own(es, k)
  IN IF O = {} THEN Append(es, [k |-> k, v |-> v])
     ELSE LET f == CHOOSE i \in O : \A j \in O : i <= j
              RECURSIVE G(_)
              G(i) == IF i > Len(es) THEN <<>>
                      ELSE (IF i = f THEN <<[k |-> k, v |-> v]>>
                            ELSE IF i \in O THEN <<>> ELSE <<es[i]>>) \o G(i + 1)
          IN G(1)
AddKey(es, k, v) == Append(es, [k |-> k, v |-> v])
DelKey(es, k) == SelectSeq(es, LAMBDA x : x.k # k)
Apply(es, x) == CASE x.how = "set" -> SetKey(es, x.k, x.v)
                  [] x.how = "add" -> AddKey(es, x.k, x.v)
                  [] x.how = "del" -> DelKey(es, x.k)
\* path: positions of the blocks to descend into
RECURSIVE EditAt(_, _, _)
EditAt(es, path, x) ==
  IF path = <<>> THEN Apply(es, x)
  ELSE [es EXCEPT ![Head(path)].v.e = EditAt(@, Tail(path), x)]

\* ---------------------------------------------------- what a block defines --
Has(es, k) == Own(es, k) # {}
FirstOf(es, k) == es[CHOOSE i \in Own(es, k) : \A j \in Own(es, k) : i <= j].v
IntOf(es, k, d) == IF Has(es, k) THEN IntVal(FirstOf(es, k).x) ELSE d
TextOf(es, k, d) == IF Has(es, k) THEN FirstOf(es, k).x ELSE d
BlockOf(tree, n) == FirstOf(tree, n).e
\* ("file", n): the n-th record; ("file", n <BYTES>): the n-th byte
StartOf(tree, n) ==
  LET p == FirstOf(tree, "^" \o n).e[2]
  IN IF p.t = "qty" THEN IntVal(p.v.x) - 1
     ELSE (IntVal(p.x) - 1) * IntOf(tree, "RECORD_BYTES", 1)

Little(ty) == SubSeq(ty, 1, 1) = "L"
Num(b, at, w, ty) ==            \* at counts from 0
  IF w = 1 THEN b[at + 1]
  ELSE IF Little(ty) THEN b[at + 1] + 256 * b[at + 2]
  ELSE 256 * b[at + 1] + b[at + 2]

Unclear == [kind |-> "unclear"]
Image(es, b, start) ==
  LET L == IntOf(es, "LINES", 0) S == IntOf(es, "LINE_SAMPLES", 0)
      N == IntOf(es, "BANDS", 1) w == IntOf(es, "SAMPLE_BITS", 8) \div 8
      st == TextOf(es, "BAND_STORAGE_TYPE", "")
      ty == TextOf(es, "SAMPLE_TYPE", "MSB_UNSIGNED_INTEGER")
      Ix(n, l, s) == CASE N = 1 \/ st = "BAND_SEQUENTIAL" -> (n * L + l) * S + s
                       [] st = "LINE_INTERLEAVED" -> (l * N + n) * S + s
                       [] st = "SAMPLE_INTERLEAVED" -> (l * S + s) * N + n
  IN IF \/ L < 1 \/ S < 1 \/ N < 1 \/ w \notin {1, 2} \/ start < 0
        \/ start + L * S * N * w > Len(b) \/ (N > 1 /\ st = "")
     THEN Unclear
     ELSE [kind |-> "image", w |-> w,
           shape |-> IF N = 1 THEN <<L, S>> ELSE <<N, L, S>>,
           data |-> [i \in 1..(N * L * S) |->
             LET j == i - 1
             IN Num(b, start + w * Ix(j \div (L * S), (j \div S) % L, j % S),
                    w, ty)]]
Columns(es) == LET f == SelectSeq(es, LAMBDA x : x.k = "COLUMN")
               IN [i \in 1..Len(f) |-> f[i].v.e]
TableOf(es, b, start) ==
  LET R == IntOf(es, "ROWS", 0) rb == IntOf(es, "ROW_BYTES", 0)
      cs == Columns(es)
      At(c) == IntOf(c, "START_BYTE", 0) - 1
      W(c) == IntOf(c, "BYTES", 0)
  IN IF \/ R < 1 \/ start < 0 \/ start + R * rb > Len(b) \/ cs = <<>>
        \/ \E i \in 1..Len(cs) : \/ At(cs[i]) < 0 \/ W(cs[i]) \notin {1, 2}
                                 \/ At(cs[i]) + W(cs[i]) > rb
        \/ \E i \in 1..(Len(cs) - 1) : At(cs[i]) + W(cs[i]) > At(cs[i + 1])
        \/ \E i, j \in 1..Len(cs) : i # j
             /\ TextOf(cs[i], "NAME", "") = TextOf(cs[j], "NAME", "")
     THEN Unclear
     ELSE [kind |-> "table", rows |-> R,
           cols |-> [i \in 1..Len(cs) |->
             [name |-> TextOf(cs[i], "NAME", ""),
              data |-> [r \in 1..R |->
                 Num(b, start + (r - 1) * rb + At(cs[i]), W(cs[i]),
                     TextOf(cs[i], "DATA_TYPE", ""))]]]]
Words(es, b, start) ==
  LET n == IntOf(es, "BYTES", 0)
  IN IF n < 1 \/ start < 0 \/ start + n > Len(b) THEN Unclear
     ELSE [kind |-> "text", codes |-> SubSeq(b, start + 1, start + n)]

\* the value of object n: kinds are fixed by the names of the objects
ValueOf(tree, o, b) ==
  LET es == BlockOf(tree, o.name) start == StartOf(tree, o.name)
  IN CASE o.kind = "image" -> Image(es, b, start)
       [] o.kind = "table" -> TableOf(es, b, start)
       [] o.kind = "text" -> Words(es, b, start)
\* a scaled image: the held samples under the definition's constants
Scaled(tree, o, v) ==
  LET es == BlockOf(tree, o.name)
  IN [v EXCEPT !.data = [i \in 1..Len(v.data) |->
        v.data[i] * IntOf(es, "SCALING_FACTOR", 1) + IntOf(es, "OFFSET", 0)]]

RECURSIVE Occurrences(_, _)
Occurrences(es, k) ==
  IF es = <<>> THEN 0
  ELSE (IF Head(es).k = k THEN 1 ELSE 0)
       + (IF Head(es).v.t = "block" THEN Occurrences(Head(es).v.e, k) ELSE 0)
       + Occurrences(Tail(es), k)

\* does an edit at this path bear on object n? (top-level edits bear on all)
Bears(tree, path, n) == path = <<>> \/ tree[Head(path)].k = n
=============================================================================
