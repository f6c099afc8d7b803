---------------------------- MODULE MC_Irregular ----------------------------
(* Every rule of Irregular with every choice of its words, all of its        *)
(* conditions met or all but one, which fails in different ways.             *)
EXTENDS Irregular, Json, TLC
CONSTANTS Deep
VARIABLES rule, pick, broken, way, name, phase

R == AllRules[rule]
Ways(how) == CASE how = "is" -> {"gone", "less", "more", "fore", "joint", "head", "tail"}
               [] how = "has" -> {"gone", "less", "more", "joint", "head", "tail"}
               [] how = "starts" -> {"gone", "fore", "less", "joint", "head"}
               [] how = "ends" -> {"gone", "more"}
               [] how = "lacks" -> {"more"}
Front(w) == SubSeq(w, 1, Len(w) - 1)
Rear(w) == SubSeq(w, 2, Len(w))
\* another joint between its words
Joints == {" ", "_", "-", "/", "."}
Jointed(w) ==
  IF \E i \in 1..Len(w) : SubSeq(w, i, i) \in Joints
  THEN LET i == CHOOSE j \in 1..Len(w) : SubSeq(w, j, j) \in Joints /\
                  \A k \in 1..(j - 1) : SubSeq(w, k, k) \notin Joints IN
       SubSeq(w, 1, i - 1) \o (IF SubSeq(w, i, i) = "_" THEN " " ELSE "_")
       \o SubSeq(w, i + 1, Len(w))
  ELSE w \o "_"
Half(w) == (Len(w) + 1) \div 2
Whole(how, w) ==
  CASE how = "is" -> w [] how = "has" -> "A_" \o w \o "_B"
    [] how = "starts" -> w \o "_B" [] how = "ends" -> "A_" \o w
    [] how = "lacks" -> ""
Marred(how, w) ==
  CASE way = "gone" -> ""
    [] way = "joint" -> Jointed(w)
    [] way = "head" -> SubSeq(w, 1, Half(w)) \o "ZZ"
    [] way = "tail" -> "ZZ" \o SubSeq(w, Half(w) + 1, Len(w))
    [] way = "less" -> (IF how = "is" THEN Front(w)
                        ELSE IF how = "starts" THEN Rear(w)
                        ELSE "A_" \o Rear(w) \o "_B")
    [] way = "more" -> (CASE how = "is" -> w \o "X" [] how = "ends" -> "A_" \o w \o "X"
                          [] how = "has" -> "A_" \o Front(w) \o "_B"
                          [] OTHER -> "A_" \o w \o "_B")
    [] way = "fore" -> "X" \o w
RECURSIVE Parts(_, _)
Parts(key, i) ==
  IF i > Len(R.needs) THEN ""
  ELSE (IF R.needs[i].key # key THEN ""
        ELSE IF i = broken THEN Marred(R.needs[i].how, pick[i])
        ELSE Whole(R.needs[i].how, pick[i])) \o Parts(key, i + 1)
Asks(key) == \E i \in 1..Len(R.needs) : R.needs[i].key = key
Special == {"OBJECT", "FILE", "FORMAT", "CONTAINER_FORMAT", "STANDARD"}
Firsts == SelectSeq([i \in 1..Len(R.needs) |-> i],
  LAMBDA i : /\ R.needs[i].key \notin Special
             /\ \A j \in 1..(i - 1) : R.needs[j].key # R.needs[i].key
             /\ Parts(R.needs[i].key, 1) # "")
Ids == [k \in 1..Len(Firsts) |->
          [key |-> R.needs[Firsts[k]].key,
           text |-> Parts(R.needs[Firsts[k]].key, 1)]]
Product1 ==
  [name |-> name, ids |-> Ids,
   file |-> LET t == Parts("FILE", 1) IN
            IF (IF Len(t) > 4 THEN SubSeq(t, Len(t) - 3, Len(t)) ELSE "") \in
                 {".img", "_ibg", ".txt", ".TXT"} THEN t
            ELSE IF t = "" THEN "x.dat" ELSE t \o ".dat",
   format |-> Parts("FORMAT", 1), suffixes |-> <<".dat">>,
   standard |-> IF Parts("STANDARD", 1) = "PDS4" THEN "PDS4" ELSE "PDS3"]
KindOf == IF Product1.standard = "PDS4" THEN "pds4" ELSE Kind(Product1)

Names == IF Deep THEN {"IMAGE", "TABLE", "HEADER", "SPREADSHEET", "ARRAY",
                       "TIME_SERIES", "SPECTRAL_QUBE", "DATA_TABLE",
                       "QUALITY_IMAGE", "SPECTRUM"}
         ELSE {"IMAGE", "TABLE", "HEADER", "SPREADSHEET", "ARRAY",
               "SPECTRAL_QUBE"}
Init ==
  /\ rule \in 1..Len(AllRules)
  /\ pick = <<>>
  /\ broken = 0 /\ way = "" /\ name = "" /\ phase = "words"
Choose ==
  /\ phase = "words"
  /\ IF Len(pick) < Len(R.needs)
     THEN /\ \E w \in R.needs[Len(pick) + 1].words : pick' = Append(pick, w)
          /\ UNCHANGED <<broken, way, phase>>
     ELSE /\ UNCHANGED pick
          /\ \E b \in 0..Len(R.needs) : broken' = b
          /\ \E w \in (IF broken' = 0 THEN {""} ELSE Ways(R.needs[broken'].how)) :
               way' = w
          /\ phase' = "name"
  /\ UNCHANGED <<rule, name>>
Call ==
  /\ phase = "name"
  /\ phase' = "done"
  /\ \E n \in IF Asks("OBJECT") /\ Parts("OBJECT", 1) # ""
              THEN {Parts("OBJECT", 1)}
              ELSE IF Parts("STANDARD", 1) = "PDS4" THEN {"TABLE_1", "D"}
              ELSE Names : name' = n
  /\ UNCHANGED <<rule, pick, broken, way>>
Next == Choose \/ Call
Spec == Init /\ [][Next]_<<rule, pick, broken, way, name, phase>>

Done == phase = "done"
P == Product1
NotHere == \A i \in 1..Len(R.needs) : R.needs[i].key # "CONTAINER_FORMAT"
\* rules cover what meets all of their conditions
Hit == (Done /\ broken = 0 /\ NotHere) => Covers(R, P)
\* every condition counts: failing one way or another
Miss == (Done /\ broken # 0 /\ way = "gone") =>
          (~Covers(R, P) \/ \E i \in 1..Len(R.needs) :
             \/ i # broken /\ R.needs[i].key = R.needs[broken].key
             \/ R.needs[i].how = "lacks"
             \/ R.needs[broken].key = "OBJECT")
Readable == KindOf \in {"image", "table", "array", "header", "pds4"}
Emit == (Done /\ ~Irregular(P) /\ Readable) =>
          PrintT("SCN " \o ToJson(P @@ [kind |-> KindOf, rule |-> R.id,
                                        way |-> way]))
=============================================================================
