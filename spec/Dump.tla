-------------------------------- MODULE Dump --------------------------------
(* Sessions in which objects of a product are loaded, dropped and dumped as  *)
(* browse files.                                                             *)
(*                                                                           *)
(* A product is a record                                                     *)
(*   objects  sequence of [name, kind, ...], kind one of image, blob (arrays *)
(*            that cannot be drawn), vector, struct, table, text, xml,       *)
(*            nothing (the object could not be loaded); brings: objects that *)
(*            are loaded with it                                             *)
(*   base     its base name                                                  *)
(*   fits     whether it is a FITS file (scaled as it is read)               *)
(* The options of a dump are those of Browse.tla and                         *)
(*   scaled "true" | "false" | "both"    purge BOOLEAN                       *)
(*   prefix "" (the base name) or text   dir  number of a directory          *)
(*   format "jpg" | "png"                                                    *)
(* A file is <<dir, name, object, variant, number of its band or -1>>        *)
EXTENDS Browse

Object(p, n) == CHOOSE o \in Range(p.objects) : o.name = n
Names(p) == {o.name : o \in Range(p.objects)}

----------------------------------------------------------------------------
(* ---- which files a dump writes ---- *)

Variants(p, x, o) ==
    IF x.kind \notin {"image", "blob"} \/ Get(x, "dim1", 0) = 1 THEN {""}
    ELSE IF p.fits /\ o.scaled # "true" THEN {"_scaled"}
    ELSE IF o.scaled = "both" THEN {"_scaled", "_unscaled"}
    ELSE {""}

Extension(x, o) ==
    CASE x.kind = "image" -> o.format
      [] x.kind = "blob" -> "pkl"
      [] x.kind \in {"vector", "struct", "table"} -> "csv"
      [] x.kind = "xml" -> "xml"
      [] OTHER -> "txt"

(* numbers of bands written apart *)
Bursts(x, o) ==
    IF x.kind # "image" \/ Len(x.a.shape) # 3 THEN {-1}
    ELSE LET n == Swapped(x.a.shape, o.axis)[1]
         IN  IF o.rgb = <<>> /\ o.band = <<-1>>
                /\ (n \notin {3, 4} \/ o.override)
             THEN 0..(n - 1) ELSE {-1}

FileName(p, x, o, v, b) ==
    (IF o.prefix = "" THEN p.base ELSE o.prefix) \o "_" \o x.name \o v
    \o (IF b = -1 THEN "" ELSE "_" \o ToString(b)) \o "." \o Extension(x, o)

FilesOf(p, x, o) ==
    IF x.kind = "nothing" THEN {}
    ELSE {<<o.dir, FileName(p, x, o, v, b), x.name, v, b>> :
          v \in Variants(p, x, o), b \in Bursts(x, o)}

Written(p, loaded, o) == UNION {FilesOf(p, Object(p, n), o) : n \in loaded}

----------------------------------------------------------------------------
(* ---- sessions: what is loaded, and what is on the disk ---- *)

Opened(p, auto) == [loaded |-> auto, disk |-> {}]

After1(p, s, op) ==
    CASE op.op = "load" -> [s EXCEPT !.loaded = @ \cup {op.name}
                                         \cup Range(Object(p, op.name).brings)]
      [] op.op = "drop" -> [s EXCEPT !.loaded = @ \ {op.name}]
      [] op.op = "dump" ->
           [loaded |-> IF op.o.purge THEN {} ELSE s.loaded,
            disk |-> s.disk \cup {<<f[1], f[2]>> :
                                  f \in Written(p, s.loaded, op.o)}]

----------------------------------------------------------------------------
(* ---- contents of files ---- *)

(* the array an image is drawn from *)
Drawn(x, variant, o) ==
    LET scaled == (variant = "_scaled" \/ (variant = "" /\ o.scaled = "true"))
    IN  IF ~scaled THEN x.a
        ELSE IF ~x.scalable THEN x.sa
        ELSE [x.a EXCEPT
                \* in halves, if anything is scaled
                !.k = IF x.mul = 2 /\ x.add = 0 THEN @
                      ELSE [i \in 1..Len(@) |-> @[i] * x.mul + x.add],
                !.exact = @ \/ x.mul # 2 \/ x.add # 0,
                !.st = [i \in 1..Len(x.a.k) |->
                           IF x.a.k[i] \in Range(x.specials) THEN 1 ELSE 0]]

(* a cell of a table, as it is read from the file, is the wanted value       *)
SameCell(c, w) ==
    CASE w.t = "str" -> c.t = w.v \/ c.t = "b'" \o w.v \o "'"
      [] w.t = "int" -> c.i = w.v
      [] OTHER       -> c[w.t] = w.v     \* real or complex, as bytes
Word(s) == [t |-> "str", v |-> s]

Grid(x) ==
    LET n == Len(x.names)
    IN  IF x.kind = "vector"
        THEN << <<Word("0")>> >> \o [i \in 1..Len(x.cells[1]) |->
                                        << x.cells[1][i] >>]
        ELSE IF x.kind = "struct"
        THEN << [j \in 1..n |-> Word(x.names[j])] >>
             \o [i \in 1..Len(x.cells[1]) |-> [j \in 1..n |-> x.cells[j][i]]]
        ELSE IF Len(x.cells[1]) = 1
        THEN << <<Word(""), Word("0")>> >>
             \o [j \in 1..n |-> <<Word(x.names[j]), x.cells[j][1]>>]
        ELSE << <<Word("")>> \o [j \in 1..n |-> Word(x.names[j])] >>
             \o [i \in 1..Len(x.cells[1]) |->
                    <<Word(ToString(i - 1))>>
                    \o [j \in 1..n |-> x.cells[j][i]]]

SameGrid(rows, g) ==
    /\ Len(rows) = Len(g)
    /\ \A i \in 1..Len(g) :
        /\ Len(rows[i]) = Len(g[i])
        /\ \A j \in 1..Len(g[i]) : SameCell(rows[i][j], g[i][j])

(* clauses broken by the file that holds variant v and band b of x           *)
ContentClauses(x, o, v, b, f) ==
    CASE x.kind = "image" ->
           LET a   == Drawn(x, v, o)
               can == {ims \in Images(a, o) : b < Len(ims)}
               bad(m) == {PictureClauses([a EXCEPT !.masked = m], o,
                                         ims[IF b = -1 THEN 1 ELSE b + 1], f)
                          : ims \in can}
               all == bad(FALSE) \cup bad(TRUE)
               un(c) == IF x.opaque
                        THEN c \ {"brightness", "gray", "mask-colour"} ELSE c
           IN  IF {} \in {un(c) : c \in all} THEN {}
               ELSE CHOOSE c \in all : TRUE
      [] x.kind \in {"vector", "struct", "table"} ->
           Clause("table", SameGrid(f.rows, Grid(x)))
      [] OTHER -> Clause("content",
                         f.content = IF x.kind = "blob" /\ (v = "_scaled" \/
                                        (v = "" /\ o.scaled = "true"))
                                     THEN x.scaled ELSE x.content)

(* ---- what may be wrong with a step ---- *)
(* st: op, and observed afterwards: loaded (sequence of names), disk         *)
(* (sequence of <<dir, name>>), changed (objects that are held, but not as   *)
(* before), files (contents of the files in the directory of the dump),      *)
(* source (files of the product are as they were), error                     *)
StepClauses(p, s, st) ==
    LET t == After1(p, s, st)
        w == IF st.op = "dump" THEN Written(p, s.loaded, st.o) ELSE {}
        found(f) == {i \in 1..Len(st.files) : st.files[i].name = f[2]}
    IN  IF st.error # "" THEN {"failed"}
        ELSE Clause("loaded-objects", Range(st.loaded) = t.loaded)
        \cup Clause("files", Range(st.disk) = t.disk)
        \cup Clause("changed-objects", st.changed = <<>>)
        \cup Clause("source", st.source)
        \cup UNION {UNION {ContentClauses(Object(p, f[3]), st.o, f[4], f[5],
                                          st.files[i]) : i \in found(f)}
                    : f \in w}

RECURSIVE FromStep(_, _, _, _)
FromStep(p, s, steps, n) ==
    IF n > Len(steps) THEN {}
    ELSE LET c == StepClauses(p, s, steps[n])
         IN  IF c # {} THEN c
             ELSE FromStep(p, After1(p, s, steps[n]), steps, n + 1)

DumpClauses(r) == FromStep(r.p, Opened(r.p, Range(r.auto)), r.steps, 1)
=============================================================================
