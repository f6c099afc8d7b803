------------------------------- MODULE Browse -------------------------------
(* How an array is rendered as an eight-bit browse image.                    *)
(*                                                                           *)
(* An array is a record                                                      *)
(*   shape   <<lines, samples>> or <<bands, lines, samples>>                 *)
(*   k       its values in row-major order, in units of the value axis       *)
(*   st      0 valid, 1 masked, 2 not a finite number                        *)
(*   masked  whether the array carries a mask at all                         *)
(*   exact   whether limits of the clipping may fall between units (TRUE for *)
(*           floating point, or when a unit is many counts); otherwise they  *)
(*           are cut to whole units                                          *)
(* and the options of a rendering are a record                               *)
(*   clip <<low, high>> | <<>> (nice)   color <<r,g,b>> | <<n>> | <<>> (none)*)
(*   band <<>> | <<n>> | <<-1>> (all)   override BOOLEAN                     *)
(*   axis 0..2                          rgb <<>> | <<r, g, b>>               *)
EXTENDS PdrBytes, TLC

----------------------------------------------------------------------------
(* ---- which cells of the array make each image ---- *)

(* the array with the slicing axis first *)
Swapped(shape, axis) ==
    IF axis = 0 THEN shape
    ELSE [i \in 1..3 |-> IF i = 1 THEN shape[axis + 1]
                         ELSE IF i = axis + 1 THEN shape[1] ELSE shape[i]]

(* place in the array of line y and sample x of band b (all from 0), seen    *)
(* along that axis                                                           *)
CellOf(shape, axis, b, y, x) ==
    LET p == Swapped(<<b, y, x>>, axis)   \* swapping is its own inverse
    IN  (p[1] * shape[2] + p[2]) * shape[3] + p[3] + 1

(* middle of n bands: the true middle, or the nearest even one by which half *)
(* a band is rounded                                                         *)
Middles(n) ==
    IF n % 2 = 0 THEN {n \div 2}
    ELSE {(n - 1) \div 2,
          LET h == (n - 1) \div 2 IN IF h % 2 = 0 THEN h ELSE h + 1}

(* the bands shown in each image; a set of possibilities                     *)
Picks(n, o) ==
    IF o.rgb # <<>> THEN { << o.rgb >> }
    ELSE IF n \in {3, 4} /\ ~o.override THEN { << <<0, 1, 2>> >> }
    ELSE IF o.band = <<-1>> THEN { [i \in 1..n |-> << i - 1 >>] }
    ELSE IF o.band # <<>> /\ o.band[1] \in 0..(n - 1) THEN { << o.band >> }
    ELSE { << << m >> >> : m \in Middles(n) }

(* one image: its lines, samples, channels and cells                         *)
Plane(a, o, bands) ==
    LET s == Swapped(a.shape, o.axis)
        c == Len(bands)
        h == s[2]
        w == s[3]
    IN  [h |-> h, w |-> w, ch |-> c,
         at |-> [i \in 1..(h * w * c) |->
                    CellOf(a.shape, o.axis, bands[((i - 1) % c) + 1],
                           (i - 1) \div (c * w), ((i - 1) \div c) % w)]]

Flatland(a) ==
    [h |-> a.shape[1], w |-> a.shape[2], ch |-> 1,
     at |-> [i \in 1..(a.shape[1] * a.shape[2]) |-> i]]

(* possible lists of images                                                  *)
Images(a, o) ==
    IF Len(a.shape) = 2 THEN { << Flatland(a) >> }
    ELSE { [i \in 1..Len(p) |-> Plane(a, o, p[i])] :
           p \in Picks(Swapped(a.shape, o.axis)[1], o) }

----------------------------------------------------------------------------
(* ---- limits of brightness ---- *)

(* ascending values *)
Ascending(s) == SortSeq(s, LAMBDA x, y : x < y)

(* hundredfold of the p-th percentile of ascending values, interpolated      *)
Percentile(s, p) ==
    LET q == p * (Len(s) - 1)
        i == q \div 100
        f == q % 100
    IN  IF i + 1 >= Len(s) THEN 100 * s[Len(s)]
        ELSE 100 * s[i + 1] + (s[i + 2] - s[i + 1]) * f

ToZero(x) == IF x >= 0 THEN (x \div 100) * 100 ELSE -(((-x) \div 100) * 100)

(* Limits that may be used: may be cut to whole units where data are whole   *)
(* (a whole limit may come out an instant short of itself)                   *)
Limits(s, p, exact) ==
    IF p = 0 THEN {100 * s[1]}
    ELSE IF p = 100 THEN {100 * s[Len(s)]}
    ELSE LET x == Percentile(s, p)
         IN  IF exact THEN {x}
             ELSE {x, ToZero(x)} \cup
                  (IF x % 100 # 0 \/ x = 0 THEN {}
                   ELSE {IF x > 0 THEN x - 100 ELSE x + 100})

Clip(x, lo, hi) == IF x < lo THEN lo ELSE IF x > hi THEN hi ELSE x

(* level v shows a value of (hundredfold) x between the limits               *)
Shows(v, x, lo, hi) ==
    LET d == 255 * (Clip(x, lo, hi) - lo) - v * (hi - lo)
    IN  v \in 0..255 /\ d <= hi - lo /\ -d <= hi - lo

(* Do levels v (a sequence) show values k (a sequence)?                      *)
ShownBetween(v, k, lo, hi, nice, s) ==
    IF lo < hi THEN \A i \in 1..Len(v) : Shows(v[i], 100 * k[i], lo, hi)
    ELSE IF nice /\ s[1] # s[Len(s)]
         THEN \A i \in 1..Len(v) :
                  Shows(v[i], 100 * k[i], 100 * s[1], 100 * s[Len(s)])
    ELSE \A i \in 1..Len(v) : v[i] = v[1] /\ v[i] \in 0..255

Shown(v, k, clip, exact) ==
    \/ k = <<>>
    \/ LET s    == Ascending(k)
           nice == clip = <<>>
           c    == IF nice THEN <<1, 1>> ELSE clip
       IN  \E lo \in Limits(s, c[1], exact),
              hi \in Limits(s, 100 - c[2], exact) :
               ShownBetween(v, k, lo, hi, nice, s)

----------------------------------------------------------------------------
(* ---- the pixels of an image ---- *)

Unmasked(a, i) == a.st[i] = 0
Carries(a, im) == a.masked \/ \E i \in 1..Len(im.at) : a.st[im.at[i]] # 0

(* channels of the picture *)
Depth(a, o, im) ==
    IF im.ch = 3 THEN 3
    ELSE IF Carries(a, im) /\ Len(o.color) = 3 THEN 3 ELSE 1

Valid(a, im) == SelectSeq([i \in 1..Len(im.at) |-> i],
                          LAMBDA i : Unmasked(a, im.at[i]))

(* sample c of the pixel that shows cell i of the image                      *)
SampleAt(im, d, px, i, c) ==
    IF d = im.ch THEN px[i] ELSE px[(i - 1) * d + c]

Colour(o, im, i, c) ==
    IF Len(o.color) = 1 THEN o.color[1]
    ELSE IF im.ch = 3 THEN o.color[((i - 1) % 3) + 1] ELSE o.color[c]

(* everything that may be wrong with a picture p of an image                 *)
PictureClauses(a, o, im, p) ==
    LET d  == Depth(a, o, im)
        ok == p.w = im.w /\ p.h = im.h
        full == ok /\ p.ch = d /\ Len(p.data) = im.h * im.w * d
        vs == Valid(a, im)
        reps == IF d = im.ch THEN 1 ELSE d
    IN  Clause("lines-and-samples", ok)
        \cup Clause("channels", ok => p.ch = d)
        \cup Clause("brightness", full =>
                Shown([j \in 1..Len(vs) |-> SampleAt(im, d, p.data, vs[j], 1)],
                      [j \in 1..Len(vs) |-> a.k[im.at[vs[j]]]],
                      o.clip, a.exact))
        \cup Clause("gray", full => \A j \in 1..Len(vs), c \in 1..reps :
                SampleAt(im, d, p.data, vs[j], c)
                = SampleAt(im, d, p.data, vs[j], 1))
        \cup Clause("mask-colour", (full /\ o.color # <<>>) =>
                \A i \in 1..Len(im.at), c \in 1..reps :
                    a.st[im.at[i]] # 0 =>
                    SampleAt(im, d, p.data, i, c) = Colour(o, im, i, c))

(* Images longer than an encoder of JPEGs allows are reduced, but drawn       *)
Longest == 65500
LongClauses(r) ==
    LET p == r.pictures[1]
    IN  IF Len(r.pictures) # 1 THEN {"number-of-images"}
        ELSE Clause("lines-and-samples",
                    IF r.h <= Longest /\ r.w <= Longest
                    THEN p.h = r.h /\ p.w = r.w
                    ELSE /\ p.h \in 1..Min2(r.h, Longest)
                         /\ p.w \in 1..Min2(r.w, Longest)
                         /\ r.h >= r.w => p.h >= p.w
                         /\ r.w >= r.h => p.w >= p.h)

(* r: a, o, pictures (in order), kept (array unchanged), names               *)
BrowseClauses(r) ==
    IF Get(r, "error", "") # "" THEN {"failed"}
    ELSE IF r.how = "long" THEN LongClauses(r)
    ELSE
    LET can == {ims \in Images(r.a, r.o) : Len(ims) = Len(r.pictures)}
    IN  Clause("number-of-images", can # {})
        \cup Clause("array-changed", r.kept)
        \cup (IF can = {} THEN {}
              ELSE LET all == {UNION {PictureClauses(r.a, r.o, ims[i],
                                                     r.pictures[i])
                                      : i \in 1..Len(ims)} : ims \in can}
                   IN  IF {} \in all THEN {}
                       ELSE CHOOSE x \in all : TRUE)

----------------------------------------------------------------------------
(* ---- the renderer of the specification ---- *)

(* levels of values, at the nearest level                                    *)
Level(x, lo, hi) ==
    (2 * 255 * (Clip(x, lo, hi) - lo) + (hi - lo)) \div (2 * (hi - lo))

Levels(k, clip, exact) ==
    IF k = <<>> THEN <<>>
    ELSE
    LET s    == Ascending(k)
        c    == IF clip = <<>> THEN <<1, 1>> ELSE clip
        Cut1(x) == IF exact THEN x ELSE ToZero(x)
        lo0  == Cut1(Percentile(s, c[1]))
        hi0  == Cut1(Percentile(s, 100 - c[2]))
        all  == lo0 >= hi0 /\ clip = <<>>
        lo   == IF all THEN 100 * s[1] ELSE lo0
        hi   == IF all THEN 100 * s[Len(s)] ELSE hi0
    IN  [i \in 1..Len(k) |-> IF lo >= hi THEN 0 ELSE Level(100 * k[i], lo, hi)]

Picture(a, o, im) ==
    LET d  == Depth(a, o, im)
        vs == Valid(a, im)
        lv == Levels([j \in 1..Len(vs) |-> a.k[im.at[vs[j]]]], o.clip, a.exact)
        reps == IF d = im.ch THEN 1 ELSE d
        nth(i) == CHOOSE j \in 1..Len(vs) : vs[j] = i
    IN  [w |-> im.w, h |-> im.h, ch |-> d,
         data |-> [n \in 1..(Len(im.at) * reps) |->
            LET i == (n - 1) \div reps + 1
                c == ((n - 1) % reps) + 1
            IN  IF Unmasked(a, im.at[i]) THEN lv[nth(i)]
                ELSE IF o.color = <<>> THEN 0 ELSE Colour(o, im, i, c)]]
=============================================================================
