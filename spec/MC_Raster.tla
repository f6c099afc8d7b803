------------------------------ MODULE MC_Raster -----------------------------
(* A *producer* that writes a raster object sample by sample in the order   *)
(* the PDS3 standard prescribes, as a state machine (three nested loops with *)
(* line prefix / suffix records). The invariants say that the closed-form    *)
(* addressing of Raster.tla is its exact inverse: the reader addresses every *)
(* core sample once, and never a prefix, suffix or plane sample.             *)
EXTENDS Raster, Json

CONSTANTS Sizes, Fixes, Pads

VARIABLES g, i, j, k, part, tape
vars == <<g, i, j, k, part, tape>>

Flat2D == [org: {"2D"}, bands: {1}, lines: Sizes, samples: Sizes,
           pre: Fixes, suf: Fixes, ax: {"none"}, apre: {0}, asuf: {0}]
Plain3 == [org: {"BSQ", "BIP"}, bands: Sizes \ {1}, lines: Sizes,
           samples: Sizes, pre: {0}, suf: {0}, ax: {"none"}, apre: {0},
           asuf: {0}]
Bil3   == [org: {"BIL"}, bands: Sizes \ {1}, lines: Sizes, samples: Sizes,
           pre: Fixes, suf: Fixes, ax: {"none"}, apre: {0}, asuf: {0}]
Planes == [org: {"BSQ", "BIL", "BIP"}, bands: Sizes \ {1},
           lines: Sizes \ {1},
           samples: Sizes \ {1}, pre: {0}, suf: {0},
           ax: {"BAND", "LINE", "SAMPLE"}, apre: Pads, asuf: Pads]

Geometries == Flat2D \cup Plain3 \cup Bil3
                \cup {p \in Planes : p.apre + p.asuf > 0}

\* loop limits, outermost to innermost
Lim(x) == CASE x.org = "BSQ" -> <<NB(x), NL(x), NS(x)>>
            [] x.org = "BIL" -> <<NL(x), NB(x), NS(x)>>
            [] x.org = "BIP" -> <<NL(x), NS(x), NB(x)>>
            [] x.org = "2D"  -> <<NL(x), 1, NS(x)>>
\* (band, line, sample) of the loop counters in padded coordinates
Padded(x, a, b, c) == CASE x.org = "BSQ" -> <<a, b, c>>
                        [] x.org = "BIL" -> <<b, a, c>>
                        [] x.org = "BIP" -> <<c, a, b>>
                        [] x.org = "2D"  -> <<0, a, c>>
Tag(x, t) ==
  LET u == <<t[1] - PreOf(x, "BAND"), t[2] - PreOf(x, "LINE"),
             t[3] - PreOf(x, "SAMPLE")>>
  IN IF /\ u[1] \in 0..(x.bands - 1) /\ u[2] \in 0..(x.lines - 1)
        /\ u[3] \in 0..(x.samples - 1)
     THEN u ELSE <<9, 9, 9>>
Junk == <<9, 9, 9>>

Init == /\ g \in Geometries /\ i = 0 /\ j = 0 /\ k = 0
        /\ part = "prefix" /\ tape = <<>>

WritePrefix ==
  /\ part = "prefix" /\ i < Lim(g)[1]
  /\ tape' = tape \o [n \in 1..g.pre |-> Junk]
  /\ part' = "core" /\ UNCHANGED <<g, i, j, k>>
WriteSample ==
  /\ part = "core"
  /\ tape' = Append(tape, Tag(g, Padded(g, i, j, k)))
  /\ IF k + 1 < Lim(g)[3] THEN k' = k + 1 /\ UNCHANGED <<j, part>>
     ELSE /\ k' = 0
          /\ IF j + 1 < Lim(g)[2] THEN j' = j + 1 /\ UNCHANGED part
             ELSE j' = 0 /\ part' = "suffix"
  /\ UNCHANGED <<g, i>>
WriteSuffix ==
  /\ part = "suffix"
  /\ tape' = tape \o [n \in 1..g.suf |-> Junk]
  /\ i' = i + 1
  /\ part' = "prefix"
  /\ UNCHANGED <<g, j, k>>
Done == part = "prefix" /\ i = Lim(g)[1]
Next == WritePrefix \/ WriteSample \/ WriteSuffix
Spec == Init /\ [][Next]_vars

\* the number of samples the reader asks for is what the producer wrote
TotalOK == Done => Len(tape) = Total(g)
\* the reader's addressing is the inverse of the producer's order
InverseOK ==
  Done => \A b \in 0..(g.bands - 1), l \in 0..(g.lines - 1),
             s \in 0..(g.samples - 1) :
            tape[Off(g, b, l, s) + 1] = <<b, l, s>>
\* nothing else on the tape is a core sample
NoLeak ==
  Done => Cardinality({x \in 1..Len(tape) : tape[x] # Junk}) = Count(g)
\* C order of the result enumerates the core once
OrderOK ==
  Done => /\ {OffAt(g, x) : x \in 1..Count(g)}
               = {x - 1 : x \in {y \in 1..Len(tape) : tape[y] # Junk}}
Emit == Done => PrintT("SCN " \o ToJson(g))
=============================================================================
