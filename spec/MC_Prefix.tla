------------------------------ MODULE MC_Prefix -----------------------------
(* A writer of images with line prefixes: line after line, and in each line  *)
(* the prefix, the samples and the suffix. It knows no row length. Whatever  *)
(* pointers there are beside the images', each prefix is in a table.         *)
EXTENDS Prefix, Json
CONSTANTS MaxImages, MaxLines, MaxPointers
VARIABLES c, out, line, part, phase
vars == <<c, out, line, part, phase>>
Names == <<"IMAGE", "B_IMAGE", "IMAGE_C">>
Elsewhere == 200
Refs == {"none", "empty", "ref"}

Init == /\ c = [images |-> <<>>, pointers |-> <<>>, listed |-> <<>>]
        /\ out = <<>> /\ line = 0 /\ part = "pre" /\ phase = "choose"
Here == c.images[Len(c.images)]
Begin ==
  /\ phase = "choose" /\ Len(c.images) < MaxImages
  /\ \E l \in 1..MaxLines, w \in 1..2, p \in 1..2, s \in 0..1, g \in 0..1,
       r \in Refs :
       /\ out' = out \o [k \in 1..g |-> <<"gap", 0, 0, 0>>]
       /\ c' = [c EXCEPT !.images = Append(@,
                  [name |-> Names[Len(c.images) + 1], file |-> 1,
                   start |-> Len(out) + g, lines |-> l, line |-> w,
                   pre |-> p, suf |-> s, ref |-> r]),
                         !.listed = Append(@, Names[Len(c.images) + 1])]
  /\ line' = 0 /\ part' = "pre" /\ phase' = "write"
Piece == [k \in 1..(CASE part = "pre" -> Here.pre [] part = "line" -> Here.line
                     [] part = "suf" -> Here.suf) |->
            <<part, Len(c.images), line, k>>]
Put ==
  /\ phase = "write"
  /\ out' = out \o Piece
  /\ part' = (CASE part = "pre" -> "line" [] part = "line" -> "suf"
                [] part = "suf" -> "pre")
  /\ line' = IF part = "suf" THEN line + 1 ELSE line
  /\ phase' = IF part = "suf" /\ line + 1 = Here.lines THEN "choose"
              ELSE "write"
  /\ UNCHANGED c
\* pointers to any image's start, in this or another file, or elsewhere
Point ==
  /\ phase = "choose" /\ c.images # <<>> /\ Len(c.pointers) < MaxPointers
  /\ \E at \in {c.images[i].start : i \in 1..Len(c.images)} \cup {Elsewhere},
       f \in 1..2 :
       /\ f = 1 \/ at # Elsewhere
       /\ LET n == IF Len(c.pointers) = 0 THEN "LINE_PREFIX_TABLE"
                   ELSE "D_LINE_PREFIX_TABLE"
          IN c' = [c EXCEPT !.pointers = Append(@,
                     [name |-> n, file |-> f, start |-> at]),
                            !.listed = Append(@, n)]
  /\ phase' = "point"
  /\ UNCHANGED <<out, line, part>>
More == phase = "point" /\ Len(c.pointers) < MaxPointers /\ phase' = "choose"
        /\ UNCHANGED <<c, out, line, part>>
Stop == /\ phase \in {"choose", "point"} /\ c.images # <<>>
        /\ phase' = "done" /\ UNCHANGED <<c, out, line, part>>
Next == Begin \/ Put \/ Point \/ More \/ Stop
Spec == Init /\ [][Next]_vars

Done == phase = "done"
\* rows of prefixes and of samples are where the writer put them
Placed == phase # "write" => \A i \in 1..Len(c.images) :
  LET g == c.images[i] IN
  \A r \in 0..(g.lines - 1) :
    /\ Cell(g, out, [at |-> 0, n |-> g.pre], r)
         = [k \in 1..g.pre |-> <<"pre", i, r, k>>]
    /\ Cut(out, SamplesAt(g, r), g.line)
         = [k \in 1..g.line |-> <<"line", i, r, k>>]
\* every described prefix is in a table, none is listed twice under one name
Reachable == Done =>
  /\ \A i \in 1..Len(c.images) :
       c.images[i].ref = "ref" <=> \E t \in Tables(c) : t.image = i
  /\ Cardinality(Range(Listing(c))) = Len(Listing(c))
  /\ \A t \in Tables(c) : t.name \in Range(Listing(c))
  /\ \A t, u \in Tables(c) : t.name = u.name => t = u
\* what is made up is only for images no pointer speaks for
Made1 == Done => \A n \in Range(MadeUp(c)) :
  \E t \in Tables(c) : t.name = n
Emit == Done => PrintT("SCN " \o ToJson(c))
=============================================================================
