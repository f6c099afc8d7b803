------------------------------ MODULE Samples -------------------------------
(* PDS3 physical sample types: what a run of file bytes means.              *)
EXTENDS PdrBytes

LittleInt == {"LSB_INTEGER", "PC_INTEGER", "VAX_INTEGER"}
BigInt    == {"MSB_INTEGER", "SUN_INTEGER", "MAC_INTEGER", "INTEGER"}
LittleUns == {"LSB_UNSIGNED_INTEGER", "PC_UNSIGNED_INTEGER",
              "VAX_UNSIGNED_INTEGER"}
BigUns    == {"MSB_UNSIGNED_INTEGER", "SUN_UNSIGNED_INTEGER",
              "MAC_UNSIGNED_INTEGER", "UNSIGNED_INTEGER"}
BigReal   == {"IEEE_REAL", "FLOAT", "REAL", "MAC_REAL", "SUN_REAL"}
LittleReal == {"PC_REAL"}
VaxReal   == {"VAX_REAL"}
IbmReal   == {"IBM_REAL"}

IntTypes  == LittleInt \cup BigInt \cup LittleUns \cup BigUns
RealTypes == BigReal \cup LittleReal \cup VaxReal \cup IbmReal
Types     == IntTypes \cup RealTypes

Little(t) == t \in LittleInt \cup LittleUns \cup LittleReal

Widths(t) == IF t \in IntTypes THEN {1, 2, 4, 8}
             ELSE IF t \in VaxReal THEN {4} ELSE {4, 8}

DType(t, n) ==
  IF t \in LittleInt \cup BigInt THEN "i" \o ToString(n)
  ELSE IF t \in LittleUns \cup BigUns THEN "u" \o ToString(n)
  ELSE "f" \o ToString(n)

(* VAX F_floating: 16-bit words are stored little-endian, most significant  *)
(* word first; hidden bit 0.1f, exponent bias 128. The IEEE single with the *)
(* same value has an exponent field smaller by two. Defined for exponent    *)
(* fields above 2 and for the true zero.                                    *)
VaxToIeee(r) ==
  LET w == <<r[2], r[1], r[4], r[3]>>
      e == (w[1] % 128) * 2 + w[2] \div 128
      s == w[1] \div 128
  IN  IF e = 0 THEN <<0, 0, 0, 0>>
      ELSE LET f == e - 2
           IN  <<s * 128 + f \div 2, (f % 2) * 128 + (w[2] % 128), w[3], w[4]>>

VaxOrdinary(r) ==
  LET e == (r[2] % 128) * 2 + r[1] \div 128
  IN  e > 2 \/ (e = 0 /\ r[2] < 128)

Elem(t, r) ==
  IF t \in VaxReal THEN VaxToIeee(r)
  ELSE IF Little(t) THEN Rev(r) ELSE r
=============================================================================
