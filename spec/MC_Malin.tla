------------------------------ MODULE MC_Malin ------------------------------
EXTENDS Malin, TLC, Json, FiniteSets
CONSTANT Deep
VARIABLE s

MslKinds == [k : {"msl"}, mode : {"raw", "wide", "pred"}, w : IF Deep THEN {8, 16, 24, 40} ELSE {8, 16, 24},
             h : IF Deep THEN {8, 16, 24} ELSE {8, 16}, how : {"exact", "short", "more", "thumb", "junk"}]
MocKinds == [k : {"moc"}, mode : {0, 1, 2}, w : {16, 32}, h : IF Deep THEN {16, 32, 144, 272} ELSE {16, 144},
             table : 0..7, parts : 1..3, eof : BOOLEAN]
Fits(x) == IF x.k = "msl"
           THEN /\ (x.mode = "pred" => x.how \in {"exact", "more", "junk"})
                /\ (x.how = "junk" => x.mode = "pred")
           ELSE /\ (x.h > 100 => x.w = 16 /\ x.parts # 2)
Init == s \in {x \in MslKinds \cup MocKinds : Fits(x)}
Next == UNCHANGED s
Spec == Init /\ [][Next]_s

Length(c) == IF c < 2 THEN 0 ELSE CHOOSE n \in 1..15 : 2 ^ n <= c /\ c < 2 ^ (n + 1)
Own(x) == IF x.k = "msl" THEN Msl ELSE Moc[x.table + 1]
Codes(x) == {Own(x)[i] : i \in 1..256} \ {0}
\* every string of bits is read as one sequence of values
PrefixFree == (s.k = "moc" => s.mode = 1 /\ s.parts = 1) =>
  LET own == Codes(s) IN
  /\ \A c \in own : \A n \in 1..(Length(c) - 1) : (c \div (2 ^ n)) \notin own
  /\ FoldSet(LAMBDA c, acc : acc + 2 ^ (15 - Length(c)), 0, own) = 2 ^ 15
  /\ Cardinality(own) = Cardinality({i \in 1..256 : Own(s)[i] # 0})
\* what is written for a value is read as it
Bits(c) == [i \in 1..Length(c) |-> (c \div (2 ^ (Length(c) - i))) % 2]
Packed(bits, order) ==
  LET b(i) == IF i <= Len(bits) THEN bits[i] ELSE 0 IN
  [j \in 1..((Len(bits) + 7) \div 8) |->
     FoldSet(LAMBDA k, acc : acc + b(8 * (j - 1) + k + 1) *
               2 ^ (IF order = "msb" THEN 7 - k ELSE k), 0, 0..7)]
ReadBack == (s.k = "moc" => s.mode = 1 /\ s.parts = 1) =>
  LET order == IF s.k = "msl" THEN "msb" ELSE "lsb"
      reader == IF s.k = "msl" THEN MslReader ELSE MocReaders[s.table]
      first == CHOOSE v \in 1..256 : Own(s)[v] # 0
  IN  \A v \in {i \in 1..256 : Own(s)[i] # 0 /\ (Deep \/ i % 5 = 1)} :
        LET bits == Bits(Own(s)[v]) \o Bits(Own(s)[first])
        IN  Values(Packed(bits, order), order, reader, DOMAIN reader, 2, 0) =
              [values |-> <<v - 1, first - 1>>, at |-> Len(bits)]
Emit == PrintT("SCN " \o ToJson(s))
=============================================================================
