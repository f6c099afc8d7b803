----------------------------- MODULE MC_Desktop ------------------------------
(* Writers of image files that go over the pixels of an image in the order    *)
(* of the file, one pixel at a time, knowing its neighbours only; what is     *)
(* read at each place has to be what was put there.                           *)
EXTENDS Desktop, Json
CONSTANTS Alphabet, PngW, PngH, MaxW, MaxH
VARIABLES what, im, out, x, y
vars == <<what, im, out, x, y>>

\* --- PNG: one byte pixels, a filter for every row
Px(i, r, c) == IF r < 0 \/ c < 0 THEN 0 ELSE i[(r * PngW) + c + 1]
Init ==
  \/ /\ what \in [kind : {"png"}, f : [1..PngH -> 0..4]]
     /\ im \in [1..(PngW * PngH) -> Alphabet]
     /\ out = [r \in 1..PngH |-> <<>>] /\ x = 0 /\ y = 0
  \/ /\ what \in [kind : {"bmp"}, bpp : {1, 4, 8, 24, 32}, w : 1..MaxW, h : 1..MaxH, topdown : BOOLEAN]
     /\ im = <<>> /\ out = <<>> /\ x = 0 /\ y = (IF what.topdown THEN 0 ELSE what.h - 1)
  \/ /\ what \in [kind : {"tiff"}, spp : {1, 3}, w : 1..3, h : 1..MaxH, rps : 1..MaxH, planar : BOOLEAN]
     /\ what.rps <= what.h
     /\ im = <<>> /\ out = << <<>> >> /\ x = 0 /\ y = 0
  \/ /\ what \in [kind : {"adam7"}, w : 1..9, h : 1..9]
     /\ im = <<>> /\ out = <<>> /\ x = 0 /\ y = 0
Over == y < 0 \/ y >= (CASE what.kind = "png" -> PngH [] what.kind = "adam7" -> 1 [] OTHER -> what.h)
            * (IF what.kind = "tiff" /\ what.planar THEN what.spp ELSE 1)
Png == /\ what.kind = "png"
       /\ LET a == Px(im, y, x - 1) b == Px(im, y - 1, x)
              c == IF x = 0 THEN 0 ELSE Px(im, y - 1, x - 1)
              d == (Px(im, y, x) - Predict(what.f[y + 1], a, b, c)) % 256
          IN out' = [out EXCEPT ![y + 1] = Append(@, d)]
       /\ IF x + 1 = PngW THEN x' = 0 /\ y' = y + 1 ELSE x' = x + 1 /\ y' = y
       /\ UNCHANGED <<what, im>>
\* --- BMP: bits of a pixel that tell where it is; out is a string of bits
Tag(r, c, k) == ((r * 7) + (c * 3) + k) % 2
BmpRow(w, r, bpp) == [i \in 1..(w * bpp) |-> Tag(r, (i - 1) \div bpp, (i - 1) % bpp)]
RECURSIVE Padded(_)
Padded(bits) == IF Len(bits) % 32 = 0 THEN bits ELSE Padded(Append(bits, 1))
Bmp == /\ what.kind = "bmp"
       /\ out' = out \o Padded(BmpRow(what.w, y, what.bpp))
       /\ y' = IF what.topdown THEN y + 1 ELSE y - 1
       /\ UNCHANGED <<what, im, x>>
\* --- TIFF: a strip is closed when it has its rows, or the plane ends
Where(c, r, p) == <<(c * 31) + (r * 5) + p>>
Row(c) == Flat([p \in 1..what.w |-> IF what.planar THEN Where(c, y % what.h, p - 1)
                                    ELSE Flat([k \in 1..what.spp |-> Where(k - 1, y, p - 1)])])
Tiff == /\ what.kind = "tiff"
        /\ LET more == [out EXCEPT ![Len(out)] = @ \o Row(y \div what.h)]
               r == (y % what.h) + 1
           IN out' = IF r % what.rps = 0 \/ r = what.h THEN Append(more, <<>>) ELSE more
        /\ y' = y + 1 /\ UNCHANGED <<what, im, x>>
Adam == what.kind = "adam7" /\ y' = 1 /\ UNCHANGED <<what, im, out, x>>
Next == ~Over /\ (Png \/ Bmp \/ Tiff \/ Adam)
Spec == Init /\ [][Next]_vars

RECURSIVE BytesFrom(_)
BytesFrom(bits) == IF bits = <<>> THEN <<>>
  ELSE <<SumSeq([i \in 1..8 |-> bits[i] * Two[9 - i]])>> \o BytesFrom(SubSeq(bits, 9, Len(bits)))
RECURSIVE Value(_)
Value(bits) == IF bits = <<>> THEN 0 ELSE Value(SubSeq(bits, 1, Len(bits) - 1)) * 2 + bits[Len(bits)]
Bits(n, r, c) == Value([k \in 1..n |-> Tag(r, c, k - 1)])

PngRead == (what.kind = "png" /\ Over) =>
  LET rows == Scanlines([r \in 1..PngH |-> [f |-> what.f[r], d |-> out[r]]], 1, <<>>)
  IN \A r \in 0..(PngH - 1), c \in 0..(PngW - 1) : rows[r + 1][c + 1] = Px(im, r, c)
BmpRead == (what.kind = "bmp" /\ Over) =>
  LET gray == [i \in 1..256 |-> <<i - 1, (i + 6) % 256, 255 - (i - 1)>>]
      e == [w |-> what.w, h |-> what.h, bpp |-> what.bpp, topdown |-> what.topdown,
            data |-> BytesFrom(out), palette |-> gray]
  IN /\ Len(e.data) = BmpStride(what.w, what.bpp) * what.h
     /\ \A c \in 0..2, r \in 0..(what.h - 1), p \in 0..(what.w - 1) :
          BmpPixel(e, c, r, p) =
            IF what.bpp < 24 THEN <<gray[Bits(what.bpp, r, p) + 1][c + 1]>>
            ELSE <<Value([k \in 1..8 |-> Tag(r, p, (8 * (2 - c)) + (k - 1))])>>
TiffRead == (what.kind = "tiff" /\ Over) =>
  LET e == [w |-> what.w, h |-> what.h, bps |-> 8, spp |-> what.spp, rps |-> what.rps,
            planar |-> what.planar, strips |-> out, palette |-> <<>>, little |-> FALSE]
  IN \A c \in 0..(what.spp - 1), r \in 0..(what.h - 1), p \in 0..(what.w - 1) :
       TiffPixel(e, c, r, p) = Where(c, r, p)
\* every pixel is in one pass
AdamWhole == what.kind = "adam7" =>
  \A r \in 0..(what.h - 1), c \in 0..(what.w - 1) :
    Cardinality({i \in 1..7 : InPass(Adam7[i], r, c)}) = 1
Emit == (Over /\ (what.kind # "png" \/ im[1] # im[2])) =>
  PrintT("SCN " \o ToJson([what |-> what, im |-> im]))
=============================================================================
