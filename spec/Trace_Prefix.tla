---------------------------- MODULE Trace_Prefix ----------------------------
(* Conformance of listings, images and prefix tables with Prefix.tla.        *)
EXTENDS Prefix, TraceBase
VARIABLE l

\* the structure a name means, looked for as Files.tla says
Found(e, w) == Resolve(e.dirs, Everywhere(e.dirs, w))
Of(e, w) == LET f == CHOOSE f \in Found(e, w) : TRUE
            IN e.fmts[CHOOSE i \in 1..Len(e.fmts) : e.fmts[i].m = f.m].items
Value(b, col) ==
  CASE col.type = "text" -> b
    [] col.type = "msb"  -> UVal(b)
    [] col.type = "lsb"  -> UVal(Rev(b))
Bytes(e, img) == e.files[img.file]
Cols(e, img) ==
  LET fmts == [k \in 1..Len(e.wants) |-> Of(e, e.wants[k])]
  IN Columns(fmts, fmts[img.fmt])
TableOk(e, t, o) ==
  LET img == e.c.images[t.image]
      cols == Cols(e, img)
  IN /\ o.kind = "table"
     /\ o.names = [k \in 1..Len(cols) |-> cols[k].name]
     /\ \A k \in 1..Len(cols) :
          o.values[k] = [r \in 1..img.lines |->
                           Value(Cell(img, Bytes(e, img), cols[k], r - 1),
                                 cols[k])]
\* images: [bands, samples]; with several bands a line holds them in turn
Pixel(e, img, b, r, s) ==
  Bytes(e, img)[SamplesAt(img, r) + b * img.samples + s + 1]
ImageOk(e, img, o) ==
  /\ o.kind = "array"
  /\ CASE img.part = "core" ->
            /\ o.shape = (IF img.bands = 1 THEN <<>> ELSE <<img.bands>>)
                           \o <<img.lines, img.samples>>
            /\ o.values = Flat([b \in 1..img.bands |->
                 Flat([r \in 1..img.lines |->
                   [s \in 1..img.samples |->
                      Pixel(e, img, b - 1, r - 1, s - 1)]])])
       [] img.part = "prefix" ->
            /\ o.shape = <<img.lines, img.pre>>
            /\ o.values = Flat([r \in 1..img.lines |->
                 Cut(Bytes(e, img), RowAt(img, r - 1), img.pre)])
       [] img.part = "suffix" ->
            /\ o.shape = <<img.lines, img.suf>>
            /\ o.values = Flat([r \in 1..img.lines |->
                 Cut(Bytes(e, img), SamplesAt(img, r - 1) + img.line,
                     img.suf)])
Seen(e, n) == {i \in 1..Len(e.obs.objects) : e.obs.objects[i].name = n}
Verdict(e) ==
  IF e.obs.kind # "product" THEN {e.obs.kind}
  ELSE
    Clause("listing", e.obs.keys = Listing(e.c)) \cup
    Clause("tables",
      \A t \in Tables(e.c) :
        \E i \in Seen(e, t.name) : TableOk(e, t, e.obs.objects[i])) \cup
    Clause("images",
      \A k \in 1..Len(e.c.images) :
        \E i \in Seen(e, e.c.images[k].name) :
          ImageOk(e, e.c.images[k], e.obs.objects[i]))

TraceInit == l = 1
TraceNext ==
  LET e == Trace[l] IN
  /\ l <= Len(Trace)
  /\ l' = l + 1
  /\ Report(e, Verdict(e))
TraceSpec == TraceInit /\ [][TraceNext]_l
AllConsumed == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
