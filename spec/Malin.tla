-------------------------------- MODULE Malin -------------------------------
(* C38: images compressed on board by Malin's cameras: MSL's (MAHLI, MARDI,  *)
(* Mastcam) in .DAT files, raw or predictively compressed, and the Mars      *)
(* Orbiter Camera's in fragments, raw or predicted along lines or columns.   *)
EXTENDS MalinCodes, PdrBytes, SequencesExt

\* prefix codes
Readers(codes) == [x \in {codes[i] : i \in 1..256} \ {0} |->
                    CHOOSE v \in 0..255 : codes[v + 1] = x]
MslReader == Readers(Msl)
MocReaders == [k \in 0..7 |-> Readers(Moc[k + 1])]
MslKnown == DOMAIN MslReader
MocKnown == [k \in 0..7 |-> DOMAIN MocReaders[k]]
BitAt(data, p, order) ==                      \* p counts bits from 0
  LET b == data[p \div 8 + 1]
      k == p % 8
  IN  (b \div (2 ^ (IF order = "msb" THEN 7 - k ELSE k))) % 2
\* n values from bit p on: [values, at] with the bit after them
RECURSIVE Step(_, _, _, _, _, _, _)
Step(data, order, reader, known, n, acc, s) ==
  IF Len(s.values) = n \/ s.at >= 8 * Len(data) THEN s
  ELSE LET a == 2 * acc + BitAt(data, s.at, order) IN
       IF a \in known
       THEN Step(data, order, reader, known, n, 1,
                 [values |-> Append(s.values, reader[a]), at |-> s.at + 1])
       ELSE Step(data, order, reader, known, n, a, [s EXCEPT !.at = @ + 1])
Values(data, order, reader, known, n, p) ==
  FoldLeft(LAMBDA s, upto : Step(data, order, reader, known, upto, 1, s),
           [values |-> <<>>, at |-> p],
           [i \in 1..((n + 15) \div 16) |-> IF 16 * i < n THEN 16 * i ELSE n])
Sums(d) == FoldLeft(LAMBDA acc, x : Append(acc,
             ((IF acc = <<>> THEN 0 ELSE acc[Len(acc)]) + x) % 256), <<>>, d)

\* ------------------------------------------------------------------- MSL
Word(file, i) == SubSeq(file, 4 * i + 1, 4 * i + 4)   \* i from 0, big-endian
MslWidth(file) == 8 * Word(file, 5)[3]
MslHeight(file) == 8 * Word(file, 5)[4]
Predicted(file) == Word(file, 8)[4] = 0 /\ Word(file, 8)[3] # 0
Wide(file) == Word(file, 9) = <<0, 0, 0, 255>>
Thumbnail(file) == (Word(file, 0)[1] \div 8) % 2 = 1
\* from byte p (0-based) on
SyncAt(file, p) ==
  LET ok(q) == SubSeq(file, q + 1, q + 4) = <<255, 255, 0, 0>> IN
  CHOOSE q \in p..Len(file) : ok(q) /\ \A r \in p..(q - 1) : ~ok(r)
Plane(file, n, p) ==
  LET v == Values(file, "msb", MslReader, MslKnown, n, 8 * (SyncAt(file, p) + 4))
      byte == (v.at + 7) \div 8
  IN  [pixels |-> Sums(v.values), at |-> ((byte + 3) \div 4) * 4]
\* eight lines: pixels of even and odd columns and lines apart
Strip(file, w, p) ==
  LET n == 2 * w
      a == Plane(file, n, p)
      b == Plane(file, n, a.at)
      c == Plane(file, n, b.at)
      d == Plane(file, n, c.at)
      of(y, x) == LET z == (y \div 2) * (w \div 2) + x \div 2 + 1 IN
                  CASE y % 2 = 0 /\ x % 2 = 0 -> a.pixels[z]
                    [] y % 2 = 0 /\ x % 2 = 1 -> b.pixels[z]
                    [] y % 2 = 1 /\ x % 2 = 0 -> c.pixels[z]
                    [] OTHER -> d.pixels[z]
  IN  [pixels |-> [i \in 1..(8 * w) |-> of((i - 1) \div w, (i - 1) % w)],
       at |-> d.at]
RECURSIVE Strips(_, _, _, _)
Strips(file, w, n, p) ==
  IF n = 0 THEN <<>>
  ELSE LET s == Strip(file, w, p) IN s.pixels \o Strips(file, w, n - 1, s.at)
RawPixels(file, n) ==
  LET byte(i) == IF 64 + i <= Len(file) THEN file[64 + i] ELSE 0 IN
  IF Wide(file) THEN [i \in 1..n |-> 256 * byte(2 * i - 1) + byte(2 * i)]
  ELSE [i \in 1..n |-> byte(i)]
\* thumbnails' sizes were rounded down; files end 32 or 56 bytes after them
Sizes(file) ==
  LET w == MslWidth(file)
      h == MslHeight(file)
      have == Len(file) - 64
      each == IF Wide(file) THEN 2 ELSE 1
  IN  IF ~Thumbnail(file) \/ have = w * h * each THEN {<<h, w>>}
      ELSE {s \in (h..(h + 7)) \X (w..(w + 7)) :
              s[1] * s[2] * each \in {have - 32, have - 56}}
MslImage(file) ==
  IF Predicted(file)
  THEN [shape |-> <<MslHeight(file), MslWidth(file)>>,
        pixels |-> Strips(file, MslWidth(file), MslHeight(file) \div 8, 64)]
  ELSE LET s == CHOOSE s \in Sizes(file) : TRUE IN
       [shape |-> s, pixels |-> RawPixels(file, s[1] * s[2])]

\* ------------------------------------------------------------------- MOC
\* a fragment: [head (62 bytes), data]
MocWidth(f) == 16 * f.head[44]
MocHeight(f) == 16 * (f.head[41] + 256 * f.head[42])
Prediction(f) == f.head[45] % 4                \* 0 none, 1 lines, 2 columns
TableOf(f) == f.head[46] % 16
Lines(data, f, n, p) ==
  LET w == MocWidth(f) IN
  Values(data, "lsb", MocReaders[TableOf(f)], MocKnown[TableOf(f)], n * w, p)
Row(values, w, i) == SubSeq(values, (i - 1) * w + 1, i * w)
\* n lines of differences below a line that is above
RECURSIVE Undone(_, _, _, _, _)
Undone(values, w, n, how, above) ==
  IF n = 0 THEN <<>>
  ELSE LET r == SubSeq(values, 1, w)
           line == CASE how = 0 -> r
                     [] how = 1 -> Sums(r)
                     [] how = 2 -> [i \in 1..w |-> (r[i] + above[i]) % 256]
       IN  line \o Undone(SubSeq(values, w + 1, Len(values)), w, n - 1, how, line)
\* every 128 lines a mark and a line as it is
RECURSIVE Sections(_, _, _, _)
Sections(data, f, n, p) ==
  IF n = 0 THEN <<>>
  ELSE LET w == MocWidth(f)
           byte == (p + 7) \div 8
           even == IF byte % 2 = 1 THEN byte + 1 ELSE byte
           first == SubSeq(data, even + 3, even + 2 + w)
           m == IF n > 128 THEN 127 ELSE n - 1
           v == Lines(data, f, m, 8 * (even + 2 + w))
       IN  first \o Undone(v.values, w, m, Prediction(f), first) \o
           Sections(data, f, n - 1 - m, v.at)
MocImage(fragments) ==
  LET f == fragments[1]
      data == FoldLeft(LAMBDA acc, x : acc \o x.data, <<>>, fragments)
  IN  [shape |-> <<MocHeight(f), MocWidth(f)>>,
       pixels |-> IF Prediction(f) = 0 THEN Lines(data, f, MocHeight(f), 0).values
                  ELSE Sections(data, f, MocHeight(f), 0)]
=============================================================================
