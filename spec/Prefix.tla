------------------------------- MODULE Prefix -------------------------------
(* Tables stored in the line prefixes of images.                             *)
(*                                                                           *)
(* An image is a record                                                      *)
(*   name, file, start   its name, the file it is in, its first byte (from 0)*)
(*   lines, line         number of lines, bytes of samples in each           *)
(*   pre, suf            bytes before and after the samples of each line     *)
(*   ref                 "none", "empty" or "ref": whether its definition    *)
(*                       names the structure of its prefixes                 *)
(* A pointer is the name, file and start of an object without a definition   *)
(* whose name says LINE_PREFIX.                                              *)
(* A structure is a sequence of columns [kind "col", name, type, at, n] and  *)
(* references to other structures [kind "ref", to] which stand for them.     *)
EXTENDS Files

RowBytes(img) == img.pre + img.line + img.suf
RowAt(img, r) == img.start + r * RowBytes(img)
SamplesAt(img, r) == RowAt(img, r) + img.pre

\* the pointers that mean the prefixes of an image
Meant(c, img) ==
  IF img.ref # "ref" THEN {}
  ELSE {i \in 1..Len(c.pointers) :
          /\ c.pointers[i].file = img.file
          /\ c.pointers[i].start = img.start}
Made(img) == img.name \o "_LINE_PREFIX_TABLE"
\* images whose table no pointer names: one is made up
NeedsName(c, img) == img.ref = "ref" /\ Meant(c, img) = {}
MadeUp(c) ==
  LET need == {i \in 1..Len(c.images) : NeedsName(c, c.images[i])}
  IN [k \in 1..Cardinality(need) |->
        Made(c.images[CHOOSE i \in need :
                        Cardinality({j \in need : j <= i}) = k])]
\* what the product lists, given what its label does
Listing(c) == c.listed \o MadeUp(c)

\* the tables: [name, number of the image]
Tables(c) ==
  UNION {{[name |-> c.pointers[p].name, image |-> i] :
            p \in Meant(c, c.images[i])} : i \in 1..Len(c.images)}
  \cup {[name |-> Made(c.images[i]), image |-> i] :
          i \in {j \in 1..Len(c.images) : NeedsName(c, c.images[j])}}

\* columns of a structure; references are numbers in the sequence fmts
RECURSIVE Columns(_, _)
Columns(fmts, items) ==
  IF items = <<>> THEN <<>>
  ELSE (IF Head(items).kind = "col" THEN <<Head(items)>>
        ELSE Columns(fmts, fmts[Head(items).to]))
       \o Columns(fmts, Tail(items))

Cell(img, bytes, col, r) == Cut(bytes, RowAt(img, r) + col.at, col.n)
=============================================================================
