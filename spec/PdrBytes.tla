------------------------------ MODULE PdrBytes ------------------------------
(* Byte-level vocabulary shared by all modules of the specification.        *)
(* A byte is an integer 0..255; a file is a sequence of bytes; an element   *)
(* is the sequence of its bytes in canonical (most significant first)       *)
(* order. No value is ever converted to an integer of more than 31 bits.    *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Rev(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]

\* n bytes of s from 0-based offset a (total: short if s is too short)
Cut(s, a, n) ==
  LET hi == IF a + n > Len(s) THEN Len(s) ELSE a + n
  IN  IF a < 0 \/ a >= Len(s) THEN <<>> ELSE SubSeq(s, a + 1, hi)

Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b

RECURSIVE SumTo(_, _)
SumTo(s, n) == IF n = 0 THEN 0 ELSE s[n] + SumTo(s, n - 1)
SumSeq(s) == SumTo(s, Len(s))

RECURSIVE ProdTo(_, _)
ProdTo(s, n) == IF n = 0 THEN 1 ELSE s[n] * ProdTo(s, n - 1)
ProdSeq(s) == ProdTo(s, Len(s))

RECURSIVE FlatTo(_, _)
FlatTo(ss, n) == IF n = 0 THEN <<>> ELSE FlatTo(ss, n - 1) \o ss[n]
Flat(ss) == FlatTo(ss, Len(ss))

Range(s) == {s[i] : i \in 1..Len(s)}
HasKey(r, k) == k \in DOMAIN r
Get(r, k, d) == IF k \in DOMAIN r THEN r[k] ELSE d

\* Clauses: a verdict is the set of names of the clauses that fail.
Clause(name, ok) == IF ok THEN {} ELSE {name}

AllZero(s) == \A i \in 1..Len(s) : s[i] = 0

\* unsigned value of a short big-endian byte string (at most 3 bytes)
RECURSIVE UVal(_)
UVal(s) == IF s = <<>> THEN 0
           ELSE UVal(SubSeq(s, 1, Len(s) - 1)) * 256 + s[Len(s)]

\* bits of a byte string, most significant first, as a string of 0 and 1
Bit(b, k) == (b \div (2 ^ (7 - k))) % 2          \* k = 0 is the msb
BitsOf(s) == [i \in 1..(8 * Len(s)) |->
                Bit(s[((i - 1) \div 8) + 1], (i - 1) % 8)]
RECURSIVE BitStr(_)
BitStr(bits) == IF bits = <<>> THEN ""
                ELSE (IF Head(bits) = 1 THEN "1" ELSE "0") \o BitStr(Tail(bits))
=============================================================================
