-------------------------------- MODULE Types -------------------------------
(* Which sample types are readable where, and what a run of samples must be  *)
(* read as: their meaning if the type is supported at that width, and never  *)
(* anything at all if it is not.                                             *)
EXTENDS Table

(* the value of a sample as an exact number, straight from its bytes         *)
\* unsigned: the bits from the most significant byte on
Magnitude(be) == StripLead(BitsOf(be))
\* bits of 2 ^ (8 n) - m for the bytes of m: complement, plus one
RECURSIVE Inc(_)
Inc(b) == IF b = <<>> THEN <<1>>
          ELSE IF b[Len(b)] = 0 THEN Append(SubSeq(b, 1, Len(b) - 1), 1)
          ELSE Append(Inc(SubSeq(b, 1, Len(b) - 1)), 0)
Negated(be) == LET bits == BitsOf(be)
               IN Inc([i \in 1..Len(bits) |-> 1 - bits[i]])
IntNumber(be, signed) ==
  IF signed /\ be[1] >= 128
  THEN [neg |-> 1, mag |-> StripLead(Negated(be))]
  ELSE [neg |-> 0, mag |-> Magnitude(be)]
\* VAX F: (-1)^s * 0.1f * 2^(e - 128)
VaxNumber(r) ==
  LET w == <<r[2], r[1], r[4], r[3]>>
      bits == BitsOf(w)
      e == (w[1] % 128) * 2 + w[2] \div 128
  IN IF e = 0 THEN Zero
     ELSE [neg |-> bits[1], bits |-> StripTrail(<<1>> \o SubSeq(bits, 10, 32)),
           exp |-> e - 128 - 1]
Swap(t, r) == IF Little(t) THEN Rev(r) ELSE r
SignedTypes == LittleInt \cup BigInt

-----------------------------------------------------------------------------
Places == {"image", "qube", "column", "items"}
NumTypes == Types
ColTypes == TextTypes \cup BitTypes \cup {"EBCDIC_CHARACTER", "EBCDIC", "BOOLEAN"}
UnknownTypes == {"COMPLEX", "IEEE_COMPLEX", "VAX_COMPLEX", "VAXG_REAL",
                 "VAX_DOUBLE", "NONSENSE", "N/A", "GIF"}
AllTypes == NumTypes \cup ColTypes \cup UnknownTypes

WidthsOf(t, most) ==
  IF t \in NumTypes THEN Widths(t)
  ELSE IF t = "BOOLEAN" THEN {1, 2, 4, 8}
  ELSE IF t \in ColTypes THEN 1..most
  ELSE {}
Supported(place, t, bits) ==
  /\ bits % 8 = 0 /\ bits > 0
  /\ place \in {"image", "qube"} => t \in NumTypes
  /\ bits \div 8 \in WidthsOf(t, bits \div 8)
\* the specification says nothing about pictures made of text
Silent4(place, t) == place \in {"image", "qube"} /\ t \in ColTypes

\* o: observation; raws: the stored samples; shape: of an array
TypeClauses(e) ==
  LET o == e.obs
      c == [type |-> e.type, w |-> e.bits \div 8, name |-> "X"]
  IN IF ~Supported(e.place, e.type, e.bits)
     THEN Clause("unsupported-type-decoded:" \o o.kind, o.kind = "other")
          \cup Clause("not-reported", e.warned)
     ELSE IF e.place \in {"image", "qube"}
     THEN IF o.kind # "array" THEN {"loaded-as-array:" \o o.kind}
          ELSE ColumnClauses(c, [kind |-> "num", dtype |-> o.dtype,
                                 data |-> o.data, name |-> "X"], e.raws)
     ELSE IF o.kind # "table" THEN {"loaded-as-table:" \o o.kind}
     ELSE IF e.place = "column"
     THEN IF Len(o.cols) # 1 THEN {"number-of-columns"}
          ELSE ColumnClauses(c, o.cols[1], e.raws)
     ELSE LET k == Len(o.cols)      \* items: sample i is in column i modulo k
          IN IF k # e.items THEN {"number-of-items"}
             ELSE UNION {ColumnClauses(
                    [c EXCEPT !.name = "X_" \o ToString(j - 1)], o.cols[j],
                    [r \in 1..(Len(e.raws) \div k) |-> e.raws[(r - 1) * k + j]])
                    : j \in 1..k}
=============================================================================
