------------------------------ MODULE Scaling -------------------------------
(* Scaling and masking of array objects (C20, C21).                          *)
(* Numbers are big integers: stored elements and special constants in units  *)
(* of 2^-3, scaling factors in units of 2^-3, offsets and scaled elements in *)
(* units of 2^-6.  Complex elements are listed as their real and imaginary   *)
(* parts in turn: a factor multiplies both, an offset adds to the real part. *)
EXTENDS PdrBytes
B == INSTANCE Big

\* keywords of a PDS3 image definition that name a special constant
Basic == {"INVALID_CONSTANT", "MISSING_CONSTANT", "INFINITY_CONSTANT",
          "NOT_APPLICABLE_CONSTANT", "NULL_CONSTANT", "UNKNOWN_CONSTANT"}
Isis == {((c \o d) \o r) \o p :
           c \in {"CORE_", "BAND_SUFFIX_", "SAMPLE_SUFFIX_", "LINE_SUFFIX_", ""},
           d \in {"HIGH_", "LOW_", ""}, r \in {"INST_", "REPR_", ""},
           p \in {"NULL", "SATURATION", "SAT"}}
Pds3Constants == Basic \cup Isis
\* elements of a PDS4 Special_Constants area that do not name valid values
Pds4Constants ==
  {"saturated_constant", "missing_constant", "error_constant",
   "invalid_constant", "unknown_constant", "not_applicable_constant",
   "high_instrument_saturation", "low_instrument_saturation",
   "high_representation_saturation", "low_representation_saturation"}

\* the implicit constants of a sample type (PDS Standards Reference, ISIS);
\* those of unsigned bytes are deliberately not applied
Implicit(dtype) ==
  CASE dtype = "int16" -> {
       [s |-> -1, l |-> <<768, 32>>],
       [s |-> 1, l |-> <<767, 32>>],
       [s |-> -1, l |-> <<767, 32>>],
       [s |-> -1, l |-> <<766, 32>>],
       [s |-> -1, l |-> <<765, 32>>],
       [s |-> -1, l |-> <<764, 32>>]}
    [] dtype = "uint16" -> {
       [s |-> 0, l |-> <<>>],
       [s |-> 1, l |-> <<1>>],
       [s |-> 1, l |-> <<2>>],
       [s |-> 1, l |-> <<533, 65>>],
       [s |-> 1, l |-> <<534, 65>>],
       [s |-> 1, l |-> <<535, 65>>]}
    [] dtype = "int32" -> {
       [s |-> -1, l |-> <<648, 483, 147, 2>>],
       [s |-> 1, l |-> <<647, 483, 147, 2>>]}
    [] dtype = "int64" -> {
       [s |-> -1, l |-> <<648, 483, 147, 2>>],
       [s |-> 1, l |-> <<647, 483, 147, 2>>]}
    [] dtype = "uint32" -> {
       [s |-> 1, l |-> <<293, 967, 294, 4>>],
       [s |-> 1, l |-> <<294, 967, 294, 4>>],
       [s |-> 1, l |-> <<683, 578, 286, 4>>],
       [s |-> 1, l |-> <<684, 578, 286, 4>>],
       [s |-> 1, l |-> <<685, 578, 286, 4>>],
       [s |-> 1, l |-> <<686, 578, 286, 4>>],
       [s |-> 1, l |-> <<687, 578, 286, 4>>]}
    [] dtype = "float32" -> {
       [s |-> 1, l |-> <<264, 563, 647, 612, 409, 351, 135, 318, 3, 0, 100>>],
       [s |-> -1, l |-> <<264, 563, 647, 612, 409, 351, 135, 318, 3, 0, 100>>],
       [s |-> -1, l |-> <<376, 781, 511, 695, 487, 22, 205, 445, 890, 508, 265, 282, 340>>],
       [s |-> -1, l |-> <<392, 67, 763, 642, 911, 692, 856, 48, 300, 791, 285, 282, 340>>],
       [s |-> -1, l |-> <<408, 353, 14, 590, 335, 363, 508, 652, 709, 73, 306, 282, 340>>],
       [s |-> -1, l |-> <<424, 639, 265, 537, 759, 33, 160, 256, 119, 356, 326, 282, 340>>],
       [s |-> -1, l |-> <<440, 925, 516, 484, 183, 704, 811, 859, 528, 638, 346, 282, 340>>]}
    [] dtype = "float64" -> {
       [s |-> -1, l |-> <<376, 781, 511, 695, 487, 22, 205, 445, 890, 508, 265, 282, 340>>]}
    [] OTHER -> {}

Eight(x) == B!Times(x, B!Of(8))
NonFinite(x) == x.s \in {7, 8, 9}

\* values of a definition's keywords that are special constants of the array
Explicit(c) ==
  {c.consts[i].v : i \in {j \in 1..Len(c.consts) :
      /\ c.consts[j].num
      /\ c.consts[j].key \in (IF c.std = "PDS4" THEN Pds4Constants
                              ELSE Pds3Constants)}}
Specials(c) ==
  IF c.std = "PDS4" THEN Explicit(c)
  ELSE IF c.crism THEN {Eight(B!Of(65535))}
  ELSE Explicit(c) \cup {Eight(x) : x \in Implicit(c.dtype)}
Special(c, x) ==
  \/ x \in Specials(c)
  \/ c.std = "PDS3" /\ ~c.crism /\ NonFinite(x)

\* factor and offset of plane p; absent or not applicable: 1 and 0
Term(t, p, default) ==
  IF t.k = "num" THEN IF Len(t.v) = 1 THEN t.v[1] ELSE t.v[p] ELSE default
Factor(c, p) == Term(c.factor, p, B!Of(8))
Offset(c, p) == Term(c.offset, p, B!Of(0))
Plane(c, i) == ((i - 1) * c.planes) \div Len(c.data) + 1
Imaginary(c, i) == c.complex /\ i % 2 = 0
Result(c, i) ==
  LET x == B!Times(c.data[i], Factor(c, Plane(c, i))) IN
  IF Imaginary(c, i) THEN x ELSE B!Add(x, Offset(c, Plane(c, i)))

\* a scaled array: masked exactly at special elements, scaled elsewhere
GoodScaled(c, o) ==
  /\ Len(o.data) = Len(c.data)
  /\ \A i \in 1..Len(c.data) :
       IF Special(c, c.data[i]) THEN o.mask[i] = 1
       ELSE o.mask[i] = 0 /\ o.data[i] = Result(c, i)
\* C20 alone: the elements that are not masked are scaled
GoodValues(c, o) ==
  /\ Len(o.data) = Len(c.data)
  /\ \A i \in 1..Len(c.data) :
       Special(c, c.data[i]) \/ o.mask[i] = 1 \/ o.data[i] = Result(c, i)
MaskOf(c) == [i \in 1..Len(c.data) |-> IF Special(c, c.data[i]) THEN 1 ELSE 0]
\* an array as stored
GoodRaw(c, o) ==
  /\ Len(o.data) = Len(c.data)
  /\ \A i \in 1..Len(c.data) :
       /\ o.mask[i] = 0
       /\ o.data[i] = IF B!IsNum(c.data[i]) THEN Eight(c.data[i]) ELSE c.data[i]
\* scaled in place: ordinary elements are scaled (once)
GoodInPlace(c, o) ==
  /\ Len(o.data) = Len(c.data)
  /\ \A i \in 1..Len(c.data) :
       Special(c, c.data[i]) \/ o.data[i] = Result(c, i)
=============================================================================
