------------------------------ MODULE MC_Types ------------------------------
(* Every place, type and width; for numeric types a *writer* that stores a   *)
(* number byte by byte in the order the type prescribes, as a state machine. *)
(* The reader's decoding must undo it.                                       *)
EXTENDS Types, Json
CONSTANTS MaxBits, ByteVals

VARIABLES place, type, bits, word, tape
vars == <<place, type, bits, word, tape>>

\* words (most significant byte first) to be written
WordsOf(n) ==
  IF n = 1 THEN {<<a>> : a \in ByteVals}
  ELSE IF n = 2 THEN {<<a, b>> : a, b \in ByteVals}
  ELSE LET mid == {[i \in 1..(n - 3) |-> x] : x \in {0, 165, 255}}
       IN {<<a, b>> \o m \o <<c>> : a, b, c \in ByteVals, m \in mid}

Init ==
  /\ place \in Places
  /\ type \in {t \in AllTypes : ~Silent4(place, t)}
  /\ bits \in (IF place = "image" THEN 1..MaxBits
               ELSE {8 * n : n \in 1..(MaxBits \div 8)})
  /\ word \in (IF place = "image" /\ Supported(place, type, bits)
               THEN WordsOf(bits \div 8) ELSE {<<>>})
  /\ tape = <<>>
\* the byte that comes next on the tape
NextByte ==
  LET i == Len(tape) + 1 n == Len(word)
  IN IF type \in VaxReal THEN word[<<2, 1, 4, 3>>[i]]
     ELSE IF type \in LittleInt \cup LittleUns \cup LittleReal
     THEN word[n + 1 - i] ELSE word[i]
Write == /\ Len(tape) < Len(word) /\ tape' = Append(tape, NextByte)
         /\ UNCHANGED <<place, type, bits, word>>
Next == Write
Spec == Init /\ [][Next]_vars

Done == word # <<>> /\ Len(tape) = Len(word)
\* the bytes of the decoded element are those of the word
DecodeOK == Done => (IF type \in VaxReal \cup IbmReal THEN TRUE
                     ELSE Elem(type, tape) = word)
\* the integer read is the integer meant
IntOK == (Done /\ type \in IntTypes) =>
           IntNumber(Elem(type, tape), DType(type, 1) = "i1")
             = IntNumber(word, type \in SignedTypes)
\* the IEEE number handed out has the value the VAX word stands for
VaxOK == (Done /\ type \in VaxReal /\ VaxOrdinary(tape)) =>
           IeeeNumber(Elem(type, tape)) = VaxNumber(tape)
\* a type is either little- or big-endian, signed or unsigned, never both
Partition == /\ LittleInt \cap BigInt = {} /\ LittleUns \cap BigUns = {}
             /\ (LittleInt \cup BigInt) \cap (LittleUns \cup BigUns) = {}
             /\ NumTypes \cap ColTypes = {} /\ UnknownTypes \cap (NumTypes \cup ColTypes) = {}
ASSUME Partition
Emit == (tape = <<>> /\ (word = <<>> \/ word = [i \in 1..Len(word) |-> 0])) =>
          PrintT("SCN " \o ToJson([place |-> place, type |-> type, bits |-> bits,
                                   ok |-> Supported(place, type, bits)]))
=============================================================================
