------------------------------- MODULE MC_Bits ------------------------------
(* A writer that packs fields into the bits of a value, and stores the value *)
(* in either byte order. Reading the bit columns must give the fields back,  *)
(* and must agree with arithmetic on the value.                              *)
EXTENDS BitCols, Json
CONSTANTS MaxBytes, Starts, Lens, MaxCols, Gaps

VARIABLES n, little, cols, fill, value
vars == <<n, little, cols, fill, value>>

Fits(c, w) == LET sp == Spans(c)[Len(Spans(c))] IN sp.at + sp.len - 1 <= w
BitColsFor(w) ==
  {c \in {[start |-> s, len |-> l, items |-> i, off |-> IF i = 0 THEN 0 ELSE l + g] :
            s \in Starts, l \in Lens, i \in {0, 2, 3}, g \in Gaps} : Fits(c, w)}

Init == /\ n \in 1..MaxBytes /\ little \in BOOLEAN /\ cols = <<>>
        /\ fill \in {0, 1} /\ value = [k \in 1..(8 * n) |-> fill]
\* describe one more bit column and write the complement of the fill and its
\* alternation into its bits
Add == /\ Len(cols) < MaxCols
       /\ \E c \in BitColsFor(8 * n) :
            /\ cols' = Append(cols, c)
            /\ LET sp == Spans(c)
               IN value' = [k \in 1..(8 * n) |->
                    IF \E i \in 1..Len(sp) : k \in sp[i].at..(sp[i].at + sp[i].len - 1)
                    THEN (1 - value[k]) ELSE value[k]]
       /\ UNCHANGED <<n, little, fill>>
Next == Add
Spec == Init /\ [][Next]_vars

\* the stored bytes
RECURSIVE Num(_)
Num(b) == IF b = <<>> THEN 0 ELSE Num(SubSeq(b, 1, Len(b) - 1)) * 2 + b[Len(b)]
Bytes(be) == [i \in 1..n |-> Num(SubSeq(be, 8 * i - 7, 8 * i))]
Stored == IF little THEN Rev(Bytes(value)) ELSE Bytes(value)

ReadsBack == ValueBits(Stored, little) = value
Arithmetic ==  \* n <= 3
  LET x == UVal(Bytes(value))
  IN \A k \in 1..(8 * n) :
       ValueBits(Stored, little)[k] = (x \div (2 ^ (8 * n - k))) % 2
Lists ==
  LET bl == BitLists(Stored, [little |-> little, cols |-> cols])
      sp == AllSpans(cols)
  IN /\ Len(bl) = Len(sp)
     /\ \A i \in 1..Len(bl) : /\ Len(bl[i]) = sp[i].len
                              /\ \A j \in 1..Len(bl[i]) :
                                   bl[i][j] = value[sp[i].at + j - 1]
Emit == (cols # <<>> /\ fill = 0) =>
          PrintT("SCN " \o ToJson([n |-> n, little |-> little, cols |-> cols]))
=============================================================================
