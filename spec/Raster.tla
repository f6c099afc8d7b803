------------------------------- MODULE Raster -------------------------------
(* Geometry of PDS3 IMAGE and QUBE objects: where in the file the sample of *)
(* band b, line l, column s is, for each storage order, with line prefix /  *)
(* suffix bytes and with ISIS side/back/bottom planes.                      *)
(*                                                                          *)
(* A geometry g is a record                                                 *)
(*   org    "2D" | "BSQ" | "BIL" | "BIP"                                    *)
(*   bands, lines, samples      size of the core                            *)
(*   pre, suf                   line prefix / suffix, in samples            *)
(*   ax     "none" | "BAND" | "LINE" | "SAMPLE": axis that has planes       *)
(*   apre, asuf                 number of planes before / after the core    *)
(* Samples inside the file are numbered from 0 from the object's start.     *)
EXTENDS Samples

PadOf(g, ax) == IF g.ax = ax THEN g.apre + g.asuf ELSE 0
PreOf(g, ax) == IF g.ax = ax THEN g.apre ELSE 0
NB(g) == g.bands + PadOf(g, "BAND")
NL(g) == g.lines + PadOf(g, "LINE")
NS(g) == g.samples + PadOf(g, "SAMPLE")

\* number of samples the object occupies
Total(g) ==
  CASE g.org \in {"BSQ", "BIP"} -> NB(g) * NL(g) * NS(g)
    [] g.org \in {"BIL", "2D"}  -> NL(g) * (NB(g) * NS(g) + g.pre + g.suf)

\* sample index of core coordinate (b, l, s), all 0-based
Off(g, b, l, s) ==
  LET bb == b + PreOf(g, "BAND")
      ll == l + PreOf(g, "LINE")
      ss == s + PreOf(g, "SAMPLE")
  IN CASE g.org = "BSQ" -> (bb * NL(g) + ll) * NS(g) + ss
       [] g.org = "BIL" -> ll * (NB(g) * NS(g) + g.pre + g.suf)
                             + g.pre + bb * NS(g) + ss
       [] g.org = "BIP" -> (ll * NS(g) + ss) * NB(g) + bb
       [] g.org = "2D"  -> ll * (NS(g) + g.pre + g.suf) + g.pre + ss

\* what the reader returns: single-band rasters are 2-D, others band-first 3-D
Shape(g) == IF g.bands = 1 THEN <<g.lines, g.samples>>
            ELSE <<g.bands, g.lines, g.samples>>
Count(g) == g.bands * g.lines * g.samples
\* coordinates of the k-th element (k from 1) of the result in C order
BandAt(g, k) == (k - 1) \div (g.lines * g.samples)
LineAt(g, k) == ((k - 1) \div g.samples) % g.lines
SampAt(g, k) == (k - 1) % g.samples
OffAt(g, k) == Off(g, BandAt(g, k), LineAt(g, k), SampAt(g, k))

\* the elements of the object when its bytes start at `start` in `file`
RasterData(g, type, n, file, start) ==
  [k \in 1..Count(g) |-> Elem(type, Cut(file, start + OffAt(g, k) * n, n))]
=============================================================================
