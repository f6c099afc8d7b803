------------------------------- MODULE Files -------------------------------
(* Which file a name in a label means, which label a product is read by, and *)
(* how the product is therefore interpreted.                                 *)
(*                                                                           *)
(* A file name is a record: x its exact text, f its text with letter case    *)
(* folded, b the folded text without a trailing compression suffix, p the    *)
(* folded text without its last suffix, s its (folded) last suffix. A        *)
(* directory is a sequence of files: a name record with a field m, the       *)
(* marker by which the file's content can be recognised, and k, its kind.    *)
EXTENDS PdrBytes

Exact(dir, w) == {n \in Range(dir) : n.x = w.x}
Loose(dir, w) == {n \in Range(dir) : n.b = w.f}
In(dir, w) == IF Exact(dir, w) # {} THEN Exact(dir, w) ELSE Loose(dir, w)

\* the files a list of candidates (directory number, wanted name) may mean:
\* the first candidate that names anything decides
RECURSIVE Resolve(_, _)
Resolve(dirs, cands) ==
  IF cands = <<>> THEN {}
  ELSE LET c == Head(cands)
           hit == In(dirs[c.d], c.w)
       IN IF hit # {} THEN {[d |-> c.d, x |-> n.x, m |-> n.m] : n \in hit}
          ELSE Resolve(dirs, Tail(cands))

\* a name is looked for in each directory in turn
Everywhere(dirs, w) == [i \in 1..Len(dirs) |-> [d |-> i, w |-> w]]

(* --- labels --- *)
LabelSuffixes == <<".xml", ".lbl", ".lblx">>
IsLabelName(n) == n.s \in Range(LabelSuffixes)

Sibling(n, suf) == [x |-> n.px \o suf, f |-> n.p \o suf]

RECURSIVE FirstSibling(_, _, _)
FirstSibling(dir, n, k) ==
  IF k > Len(LabelSuffixes) THEN {}
  ELSE LET hit == In(dir, Sibling(n, LabelSuffixes[k]))
       IN IF hit # {} THEN hit ELSE FirstSibling(dir, n, k + 1)

\* the possible labels of the product opened as n with the label argument a
Labels(dir, n, a) ==
  IF a # <<>> THEN In(dir, a[1])
  ELSE IF IsLabelName(n) THEN {n}
  ELSE FirstSibling(dir, n, 1)

FitsSuffixes == {".fits", ".fit", ".fz"}
ImageKinds == {"PNG", "GIF", "JPEG", "BMP", "TIFF", "WEBP"}
DesktopSuffixes == {".png", ".gif", ".jpg", ".jpeg", ".bmp", ".tif", ".tiff",
                    ".webp"}

(* The outcome of opening: the file the metadata comes from and the standard *)
(* it is read by, or an error.                                              *)
Outcomes(dir, w, a) ==
  LET opened == In(dir, w)
      One(n) ==
        LET ls == Labels(dir, n, a)
        IN IF ls # {}
           THEN {[std |-> IF t.s \in {".xml", ".lblx"} THEN "PDS4" ELSE "PDS3",
                  m |-> t.m, k |-> t.k] : t \in ls}
           ELSE IF a # <<>> THEN {[std |-> "error", m |-> "", k |-> "missing"]}
           ELSE IF n.s \in FitsSuffixes
                THEN {[std |-> "FITS", m |-> n.m, k |-> n.k]}
           ELSE IF n.s \in DesktopSuffixes /\ n.k \in ImageKinds
                THEN {[std |-> n.k, m |-> n.m, k |-> n.k]}
           ELSE IF n.k = "attached"
                THEN {[std |-> "PDS3", m |-> n.m, k |-> n.k]}
           ELSE {[std |-> "error", m |-> "", k |-> n.k]}
  IN IF opened = {} THEN {[std |-> "error", m |-> "", k |-> "missing"]}
     ELSE UNION {One(n) : n \in opened}
=============================================================================
