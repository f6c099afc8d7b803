---------------------------- MODULE MC_Dispatch -----------------------------
(* Names word by word, kinds of file, and every rule with each of its        *)
(* conditions met or not.                                                    *)
EXTENDS Dispatch, Json, TLC
CONSTANTS N, Words
VARIABLES words, rule, broken, name, suffixes, phase

RECURSIVE Joined(_)
Joined(ws) == IF Len(ws) = 1 THEN ws[1] ELSE Joined(Cut(ws, 1, Len(ws) - 1))
                                              \o "_" \o ws[Len(ws)]
Suffixes == {<<".dat">>, <<".img">>, <<".fits">>, <<".png">>,
             <<".fit", ".dat">>, <<".txt">>}
Keys(r) == {r.needs[i].key : i \in 1..Len(r.needs)}
RECURSIVE Parts(_, _, _, _)
Parts(r, key, i, without) ==
  IF i > Len(r.needs) THEN ""
  ELSE (IF r.needs[i].key # key \/ i = without THEN ""
        ELSE CASE r.needs[i].how = "is" -> r.needs[i].text
               [] r.needs[i].how = "has" -> "X-" \o r.needs[i].text \o "-Y"
               [] OTHER -> r.needs[i].text \o "-Y")
       \o Parts(r, key, i + 1, without)
TextFor(r, key, without) ==
  LET t == Parts(r, key, 1, without) IN IF t = "" THEN "OTHER" ELSE t
Ids == IF rule = 0 THEN <<>>
       ELSE LET r == Rules[rule]
                firsts == SelectSeq([i \in 1..Len(r.needs) |-> i],
                   LAMBDA i : \A j \in 1..(i - 1) : r.needs[j].key # r.needs[i].key)
            IN [k \in 1..Len(firsts) |->
                  [key |-> r.needs[firsts[k]].key,
                   text |-> TextFor(r, r.needs[firsts[k]].key, broken)]]
Obj == [name |-> name, suffixes |-> suffixes, ids |-> Ids]

Init ==
  /\ words = <<>> /\ name = "" /\ suffixes = <<>> /\ phase = "start"
  /\ rule \in 0..Len(Rules)
  /\ broken \in 0..(IF rule = 0 THEN 0 ELSE Len(Rules[rule].needs) + 1)
Extend ==
  /\ rule = 0 /\ phase = "start" /\ Len(words) < N
  /\ \E w \in Words : words' = Append(words, w)
  /\ UNCHANGED <<rule, broken, name, suffixes, phase>>
Finish ==
  /\ phase = "start"
  /\ rule # 0 \/ words # <<>>
  /\ \/ /\ rule = 0 /\ name' = Joined(words)
     \/ /\ rule # 0
        /\ \E w \in IF broken = Len(Rules[rule].needs) + 1
                    THEN {"FOO", "IMAGE", "DATA_TABLE"}
                    ELSE {IF x = "" THEN "TABLE" ELSE
                          IF Rules[rule].how = "is" THEN x
                          ELSE "A_" \o x : x \in Rules[rule].names}
                         \cup (IF Rules[rule].how = "is" THEN {} ELSE
                               Rules[rule].names \ {""}) :
             name' = w
  /\ \E s \in IF rule = 0 THEN Suffixes ELSE {<<".dat">>} : suffixes' = s
  /\ phase' = "done"
  /\ UNCHANGED <<words, rule, broken>>
Next == Extend \/ Finish
Spec == Init /\ [][Next]_<<words, rule, broken, name, suffixes, phase>>

Done == phase = "done"
Kinds == {"hidden", "nothing", "fits", "desktop", "image", "table", "text",
          "array", "header", "unsupported"}
Total == Done => Kind(Obj) \in Kinds
\* a rule applies exactly when all of its conditions are met
RuleExact ==
  (Done /\ rule # 0 /\ broken = 0) => Met(Rules[rule], Obj)
RuleSpares ==
  (Done /\ rule # 0 /\ broken \in 1..Len(Rules[rule].needs))
     => ~Met(Rules[rule], Obj)
\* without rules, objects of files of foreign formats go to their readers
ForeignFirst ==
  (Done /\ rule = 0 /\ ~Hidden(Obj) /\ Named(Obj, Fits)) => Kind(Obj) = "fits"
\* headers of tables are headers, tables of images tables
TableHeaders ==
  (Done /\ rule = 0 /\ suffixes = <<".dat">> /\
   Has(name, "TABLE_HEADER") /\
   ~HasAny(name, {"TEXT", "PDF", "FILENAME", "DESC", "ARRAY", "TIFF",
                  "STRUCTURE", "PDS_OBJECT", "MAP_PROJECTION_CATALOG"}))
     => Kind(Obj) = "header"
Emit == Done => PrintT("SCN " \o ToJson(Obj @@ [rule |-> IF rule = 0 THEN "" ELSE Rules[rule].id]))
=============================================================================
