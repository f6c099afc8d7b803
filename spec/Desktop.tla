------------------------------- MODULE Desktop -------------------------------
(* "Desktop" images: what PNG, BMP, TIFF, GIF, JPEG, JPEG2000 and WebP files  *)
(* store, and what opening one gives: an array of rows and columns, or of    *)
(* channels, rows and columns, for the image or for every frame.             *)
(* An image is [dtype, chans (0: no axis), h, w] and a function giving the   *)
(* bytes, most significant first, of channel c at row r and column x, each   *)
(* counted from 0.                                                           *)
EXTENDS PdrBytes

Two == <<1, 2, 4, 8, 16, 32, 64, 128, 256>>
\* the i-th sample (from 0) of a row of packed samples, as bytes
SampleOf(row, depth, i) ==
  IF depth = 8 THEN <<row[i + 1]>>
  ELSE IF depth > 8 THEN SubSeq(row, i * (depth \div 8) + 1, (i + 1) * (depth \div 8))
  ELSE LET bit == i * depth
           b == row[(bit \div 8) + 1]
       IN <<(b \div Two[9 - depth - (bit % 8)]) % Two[depth + 1]>>

-----------------------------------------------------------------------------
(* PNG: every byte of a scanline is stored as its difference from what its   *)
(* neighbours predict.                                                       *)
Absolute(n) == IF n < 0 THEN -n ELSE n
Paeth(a, b, c) ==
  LET p == (a + b) - c
      pa == Absolute(p - a) pb == Absolute(p - b) pc == Absolute(p - c)
  IN IF pa <= pb /\ pa <= pc THEN a ELSE IF pb <= pc THEN b ELSE c
Predict(f, a, b, c) ==
  CASE f = 0 -> 0 [] f = 1 -> a [] f = 2 -> b [] f = 3 -> (a + b) \div 2
    [] f = 4 -> Paeth(a, b, c)
Nth(s, i) == IF i < 1 THEN 0 ELSE s[i]
RECURSIVE Unfiltered(_, _, _, _, _)
Unfiltered(f, line, up, bpp, acc) ==
  LET i == Len(acc) + 1
  IN IF i > Len(line) THEN acc
     ELSE Unfiltered(f, line, up, bpp, Append(acc,
            (line[i] + Predict(f, Nth(acc, i - bpp), up[i], Nth(up, i - bpp))) % 256))
RECURSIVE Scanlines(_, _, _)
Scanlines(lines, bpp, acc) ==
  LET i == Len(acc) + 1
  IN IF i > Len(lines) THEN acc
     ELSE LET up == IF i = 1 THEN [j \in 1..Len(lines[1].d) |-> 0] ELSE acc[i - 1]
          IN Scanlines(lines, bpp, Append(acc, Unfiltered(lines[i].f, lines[i].d, up, bpp, <<>>)))
\* passes: where they start, and their steps
Adam7 == << [x |-> 0, y |-> 0, dx |-> 8, dy |-> 8], [x |-> 4, y |-> 0, dx |-> 8, dy |-> 8],
            [x |-> 0, y |-> 4, dx |-> 4, dy |-> 8], [x |-> 2, y |-> 0, dx |-> 4, dy |-> 4],
            [x |-> 0, y |-> 2, dx |-> 2, dy |-> 4], [x |-> 1, y |-> 0, dx |-> 2, dy |-> 2],
            [x |-> 0, y |-> 1, dx |-> 1, dy |-> 2] >>
OnePass == << [x |-> 0, y |-> 0, dx |-> 1, dy |-> 1] >>
PassesOf(interlaced) == IF interlaced THEN Adam7 ELSE OnePass
InPass(p, r, x) == x >= p.x /\ (x - p.x) % p.dx = 0 /\ r >= p.y /\ (r - p.y) % p.dy = 0
PassAt(ps, r, x) == CHOOSE i \in 1..Len(ps) : InPass(ps[i], r, x)
SamplesOf(ctype) == CASE ctype = 0 -> 1 [] ctype = 2 -> 3 [] ctype = 3 -> 1
                      [] ctype = 4 -> 2 [] ctype = 6 -> 4
\* gray levels of few bits are spread over 8
Spread(depth, s) == CASE depth = 2 -> <<s[1] * 85>> [] depth = 4 -> <<s[1] * 17>> [] OTHER -> s
PngPixel(e, done, c, r, x) ==
  LET ps == PassesOf(e.interlaced)
      p == PassAt(ps, r, x)
      row == done[p][((r - ps[p].y) \div ps[p].dy) + 1]
      k == SamplesOf(e.ctype)
      s == SampleOf(row, e.depth, k * ((x - ps[p].x) \div ps[p].dx) + (IF e.ctype = 3 THEN 0 ELSE c))
  IN IF e.ctype = 3 THEN <<e.palette[s[1] + 1][c + 1]>>
     ELSE IF e.ctype = 0 THEN Spread(e.depth, s) ELSE s

(* BMP: rows of multiples of 4 bytes, last row first unless said otherwise,  *)
(* colours as blue, green, red.                                              *)
BmpStride(w, bpp) == (((w * bpp) + 31) \div 32) * 4
BmpPixel(e, c, r, x) ==
  LET s == BmpStride(e.w, e.bpp)
      row == Cut(e.data, s * (IF e.topdown THEN r ELSE e.h - 1 - r), s)
  IN IF e.bpp >= 24 THEN <<row[((x * e.bpp) \div 8) + (2 - c) + 1]>>
     ELSE <<e.palette[SampleOf(row, e.bpp, x)[1] + 1][c + 1]>>

(* TIFF: strips of some rows, samples together or in planes of their own.    *)
TiffPixel(e, c, r, x) ==
  LET w == e.bps \div 8
      pc == IF e.palette = <<>> THEN c ELSE 0
      perplane == ((e.h + e.rps) - 1) \div e.rps
      strip == (r \div e.rps) + (IF e.planar THEN pc * perplane ELSE 0)
      inrow == IF e.planar THEN x ELSE (x * e.spp) + pc
      rowlen == IF e.planar THEN e.w ELSE e.w * e.spp
      s == Cut(e.strips[strip + 1], (((r % e.rps) * rowlen) + inrow) * w, w)
  IN IF e.palette # <<>> THEN <<e.palette[s[1] + 1][c + 1]>>
     ELSE IF e.little THEN Rev(s) ELSE s

(* GIF: a frame is drawn over the ones before it.                            *)
Covers(f, r, x) == r \in f.y..(f.y + f.h - 1) /\ x \in f.x..(f.x + f.w - 1)
GifPixel(frames, n, c, r, x) ==
  LET last == CHOOSE k \in 1..n : /\ Covers(frames[k], r, x)
                                 /\ \A j \in (k + 1)..n : ~Covers(frames[j], r, x)
      f == frames[last]
  IN <<f.palette[f.data[(r - f.y) * f.w + (x - f.x) + 1] + 1][c + 1]>>

\* losslessly stored: the samples, by rows, columns and channels
PlainPixel(e, c, r, x) ==
  LET k == Max2(e.chans, 1)
  IN e.data[((r * e.w) + x) * k + c + 1]

-----------------------------------------------------------------------------
ImageOf(e) ==
  CASE e.fmt = "PNG" ->
         [dtype |-> IF e.ctype = 0 /\ e.depth = 1 THEN "b1" ELSE IF e.depth = 16 THEN "u2" ELSE "u1",
          chans |-> CASE e.ctype = 0 -> 0 [] e.ctype = 3 -> 3 [] OTHER -> SamplesOf(e.ctype)]
    [] e.fmt = "BMP" -> [dtype |-> "u1", chans |-> 3]
    [] e.fmt = "TIFF" ->
         [dtype |-> CASE e.bps = 8 -> "u1" [] e.bps = 16 -> "u2" [] e.real -> "f4" [] OTHER -> "i4",
          chans |-> IF e.palette # <<>> THEN 3 ELSE IF e.spp = 1 THEN 0 ELSE e.spp]
    [] e.fmt = "GIF" -> [dtype |-> "u1", chans |-> 3]
    [] OTHER -> [dtype |-> e.dtype, chans |-> e.chans]
\* lossless formats: the pixels; done is the reconstructed PNG
PixelOf(e, done, c, r, x) ==
  CASE e.fmt = "PNG" -> PngPixel(e, done, c, r, x)
    [] e.fmt = "BMP" -> BmpPixel(e, c, r, x)
    [] e.fmt = "TIFF" -> TiffPixel(e, c, r, x)
    [] e.fmt = "GIF" -> GifPixel(e.frames, e.frame + 1, c, r, x)
    [] OTHER -> PlainPixel(e, c, r, x)
RowBytes(e) == Max2(1, (e.depth * SamplesOf(e.ctype)) \div 8)
Done(e) == IF e.fmt = "PNG" THEN [p \in 1..Len(e.passes) |-> Scanlines(e.passes[p], RowBytes(e), <<>>)]
           ELSE <<>>

\* o: [kind, dtype, shape, data]
SameImage(e, o) ==
  LET im == ImageOf(e) k == Max2(im.chans, 1)
      shape == IF im.chans = 0 THEN <<e.h, e.w>> ELSE <<im.chans, e.h, e.w>>
      done == Done(e)
  IN IF o.kind # "array" THEN {"loaded-as-array:" \o o.kind}
     ELSE IF o.shape # shape THEN {"shape"}
     ELSE Clause("dtype", o.dtype = im.dtype)
          \cup (IF Len(o.data) # ProdSeq(shape) THEN {"number-of-elements"}
                ELSE Clause("pixels:" \o e.fmt, \A c \in 0..(k - 1), r \in 0..(e.h - 1), x \in 0..(e.w - 1) :
                       LET got == o.data[((c * e.h) + r) * e.w + x + 1]
                       IN IF e.near = 0 THEN got = PixelOf(e, done, c, r, x)
                          ELSE Absolute(got[1] - PixelOf(e, done, c, r, x)[1]) <= e.near))

(* The objects of an image file opened on its own; further images of an MPO  *)
(* file are named after their kind.                                          *)
ObjectsOf(e) ==
  IF e.labelled THEN <<"LABEL", e.key>>
  ELSE IF e.n = 1 THEN <<"IMAGE">>
  ELSE IF e.standard \in {"GIF", "WEBP"} THEN [i \in 1..e.n |-> "FRAME_" \o ToString(i - 1)]
  ELSE [i \in 1..e.n |-> IF i = 1 THEN "IMAGE" ELSE e.kinds[i] \o "_" \o ToString(i - 1)]
\* which frame an object is
FrameOf(e, key) == CHOOSE i \in 1..e.n : ObjectsOf(e)[i] = key
OpenClauses(e) ==
  Clause("objects", Range(e.keys) = Range(ObjectsOf(e)) /\ (e.labelled \/ e.keys = ObjectsOf(e)))
  \cup Clause("standard", e.got = IF e.labelled THEN "PDS3" ELSE e.standard)
  \cup Clause("metadata", e.labelled \/ e.meta = [width |-> e.w, height |-> e.h,
                                                  format |-> e.standard, frames |-> e.n])
DesktopClauses(e) == CASE e.op = "open" -> OpenClauses(e) [] e.op = "image" -> SameImage(e, e.obs)
=============================================================================
