----------------------------- MODULE MC_Foreign -----------------------------
EXTENDS Foreign, TLC, Json
CONSTANT Deep
VARIABLE s

Chars == {97, 92, 150, 164, 176, 233, 23270, 23077, 24230, 20055, 35488}
Values == {<<c>> : c \in Chars} \cup {<<c, d>> : c \in Chars, d \in Chars} \cup
          (IF Deep THEN {<<c, d, 97, e>> : c \in Chars, d \in Chars, e \in Chars} ELSE {})
Names == {"CE1_BMYK_A.2C", "CE2_GRAS_CCD_0012.1B", "CE3_X_N.01", "aCE1b.2A.x",
  "CE3_BMYK_PCAM_A.2C", "CE4_BMYK_A.2C", "CE1_BMYK_A.2D", "ce1_bmyk_a.2C",
  "MAG_20060607_DOY158_S004_V1.TAB", "BIO_2006_DOY1_V1.TAB",
  "MAG_20060607_DOY158_V2.TAB", "MAG_20060607_DOY158_V1.DAT",
  "MAX_2006_DOY158_V1.TAB", "MAG_2006_V1.TAB", "plain.img"}
Utf8(c) == IF c < 128 THEN <<c>>
           ELSE IF c < 2048 THEN <<192 + c \div 64, 128 + (c % 64)>>
           ELSE <<224 + c \div 4096, 128 + ((c \div 64) % 64), 128 + (c % 64)>>
Codes(enc, c) ==
  CASE enc = "utf-8" -> Utf8(c)
    [] enc = "latin-1" -> IF c < 256 THEN <<c>> ELSE <<>>
    [] enc = "gb18030" -> IF c < 128 THEN <<c>>
                          ELSE IF \E i \in 1..Len(Gb) : Gb[i].c = c
                          THEN Gb[CHOOSE i \in 1..Len(Gb) : Gb[i].c = c].b ELSE <<>>
RECURSIVE Bytes(_, _)
Bytes(enc, v) == IF v = <<>> THEN <<>> ELSE Codes(enc, v[1]) \o Bytes(enc, Tail(v))
Writable(enc, v) == \A i \in 1..Len(v) : Codes(enc, v[i]) # <<>>
Labels == {x \in [k : {"label"}, file : Names, value : Values] :
             Writable(Encoding(x.file), x.value)}

Files == {"CE6-L_GRAS_LMS-M_SCI_N_1.2BL", "CE6-L_GRAS_LMS-S_SCI_N_1.2BL",
  "CE6-L_GRAS_LMS-N_SCI_N_1.2BL", "CE5-L_GRAS_LMS-N_SCI_N_1.2BL",
  "CE5-L_GRAS_LMS-M_SCI_N_1.2BL", "CE4_GRAS_ASAN-SCI_SCI_N_1.2BL",
  "CE4_GRAS_LND-DPSL_SCI_N_1.2AL", "CE4_GRAS_LND-ThN_SCI_N_1.2AL",
  "CE4_GRAS_LND-TID_SCI_N_1.2AL", "CE4_GRAS_VNIS-SD_SCI_N_1.2BL",
  "CE4_GRAS_VNIS-XX_SCI_N_1.2BL", "CE4_GRAS_LND-TID_SCI_N_1.2CL",
  "CE6-L_GRAS_LMS-M_CAL_N_1.2BL", "ch2_cla_l1_2021.xml"}
Groups == {<<>>, <<[name |-> "", reps |-> 2]>>, <<[name |-> "E", reps |-> 1]>>,
  <<[name |-> "E", reps |-> 3], [name |-> "F", reps |-> 2]>>,
  <<[name |-> "E", reps |-> 2], [name |-> "", reps |-> 2]>>}
\* late: rows from which on cells get longer, 0 if none do
Shapes == {x \in [k : {"table"}, file : Files, fields : 1..3, groups : Groups,
                  rows : {1, 2, 7, 130}, late : {0, 2, 101, 130}, wrong : BOOLEAN] :
             /\ x.late <= x.rows
             /\ (How(x.file) # "blanks" => x.groups = <<>>)
             /\ (How(x.file) \in {"label", "fits"} => ~x.wrong)
             /\ (~Deep => x.groups = <<>> \/ x.rows # 130)}
Init == s \in Labels \cup Shapes
Next == UNCHANGED s
Spec == Init /\ [][Next]_s

\* every label's text can be had again from its bytes
RoundTrip == s.k = "label" =>
  LET e == Encoding(s.file) IN Decoded(e, Bytes(e, s.value)) = s.value
\* the encodings are worth telling apart
Differ == s.k = "label" /\ (\E i \in 1..Len(s.value) : s.value[i] > 127) =>
  /\ Writable("gb18030", s.value) => Bytes("utf-8", s.value) # Bytes("gb18030", s.value)
  /\ Writable("latin-1", s.value) => Bytes("latin-1", s.value) # Bytes("utf-8", s.value)
\* one rule at most, and only by all its words
OneRule == s.k = "table" => \A i, j \in Lax(s.file) : i = j
NamedApart == s.k = "table" =>
  LET t == [fields |-> [i \in 1..s.fields |-> "f" \o ToString(i)], groups |-> s.groups]
      c == Columns(t)
  IN  /\ SubSeq(c, 1, s.fields) = t.fields
      /\ \A i, j \in 1..Len(c) : i # j => c[i] # c[j]
Emit == PrintT("SCN " \o ToJson(
  IF s.k = "label" THEN [k |-> s.k, file |-> s.file, enc |-> Encoding(s.file),
                         bytes |-> Bytes(Encoding(s.file), s.value)]
  ELSE [k |-> s.k, file |-> s.file, how |-> How(s.file), fields |-> s.fields,
        groups |-> s.groups, rows |-> s.rows, late |-> s.late, wrong |-> s.wrong]))
=============================================================================
