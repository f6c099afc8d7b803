------------------------------ MODULE MC_Open -------------------------------
(* Bounded exploration of opening a product: the kind of the file opened,    *)
(* the labels beside it (each extension absent, in lower or in upper case),  *)
(* and the label argument.                                                   *)
EXTENDS Files, Json
CONSTANT Kinds
Sfx(kind) == CASE kind \in {"binary", "attached"} -> ".img"
               [] kind = "fits" -> ".fits" [] kind = "PNG" -> ".png"
               [] kind = "notpng" -> ".png"
               [] kind = "lbl" -> ".lbl" [] kind = "xml" -> ".xml"
               [] kind = "lblx" -> ".lblx"
Up(suf) == CASE suf = ".xml" -> ".XML" [] suf = ".lbl" -> ".LBL"
             [] suf = ".lblx" -> ".LBLX"
Presence == {"absent", "lower", "upper"}
Args == {"none", "lbl", "xml", "missing"}
VARIABLES kind, sib, arg
Opened == [x |-> "prod" \o Sfx(kind), px |-> "prod", p |-> "prod",
           f |-> "prod" \o Sfx(kind), b |-> "prod" \o Sfx(kind),
           s |-> Sfx(kind), m |-> "opened", k |-> kind]
SibFile(suf, pr) ==
  LET t == IF pr = "upper" THEN Up(suf) ELSE suf
  IN [x |-> "prod" \o t, px |-> "prod", p |-> "prod", f |-> "prod" \o suf,
      b |-> "prod" \o suf, s |-> suf, m |-> suf, k |-> "label"]
Other(suf) ==
  [x |-> "other" \o suf, px |-> "other", p |-> "other", f |-> "other" \o suf,
   b |-> "other" \o suf, s |-> suf, m |-> "other", k |-> "label"]
Sibs == {SibFile(suf, sib[suf]) : suf \in {t \in Range(LabelSuffixes) :
                                             sib[t] # "absent"}}
RECURSIVE Listed(_)
Listed(S) == IF S = {} THEN <<>>
             ELSE LET v == CHOOSE v \in S : TRUE IN <<v>> \o Listed(S \ {v})
Dir == <<Opened>> \o Listed(Sibs)
       \o (IF arg \in {"lbl", "xml"} THEN <<Other("." \o arg)>> ELSE <<>>)
Arg == CASE arg = "none" -> <<>>
         [] arg = "missing" -> <<[x |-> "gone.lbl", f |-> "gone.lbl"]>>
         [] OTHER -> <<[x |-> "other." \o arg, f |-> "other." \o arg]>>
Init == /\ kind \in Kinds /\ arg \in Args
        /\ sib \in [Range(LabelSuffixes) -> Presence]
        /\ IsLabelName(Opened) => sib[Sfx(kind)] = "absent"
Next == UNCHANGED <<kind, sib, arg>>
Spec == Init /\ [][Next]_<<kind, sib, arg>>
Out == Outcomes(Dir, Opened, Arg)

OneOutcome == Cardinality(Out) = 1
ArgWins == arg \in {"lbl", "xml"} => \A o \in Out : o.m = "other"
XmlFirst == arg = "none" /\ ~IsLabelName(Opened) /\ sib[".xml"] # "absent"
            => \A o \in Out : o.std = "PDS4" /\ o.m = ".xml"
LblNext == arg = "none" /\ ~IsLabelName(Opened) /\ sib[".xml"] = "absent"
           /\ sib[".lbl"] # "absent" => \A o \in Out : o.std = "PDS3"
Itself == arg = "none" /\ IsLabelName(Opened) => \A o \in Out : o.m = "opened"
NeverMisread == \A o \in Out :
  o.k \in {"binary", "notpng", "missing"} <=> o.std = "error"
CaseBlind == \A o \in Outcomes([i \in 1..Len(Dir) |->
                  [Dir[i] EXCEPT !.x = IF i = 1 THEN Dir[1].x ELSE "?"]],
                  Opened, Arg) : \E q \in Out : q.std = o.std /\ q.m = o.m
Emit == PrintT("SCN " \o ToJson([kind |-> kind, sib |-> sib, arg |-> arg]))
=============================================================================
