------------------------------ MODULE MC_Files ------------------------------
(* Bounded exploration of the search for a named file: every content of the  *)
(* directories (up to two versions of the file in each, among its exact      *)
(* name, off-case and compressed spellings and a decoy), searched one after  *)
(* the other.                                                                *)
EXTENDS Files, Json
CONSTANTS NDirs, MaxIn
Variants == {"exact", "lower", "upper", "exactgz", "lowergz", "upperbz2",
             "decoy"}
Want == [x |-> "Data01.Img", f |-> "data01.img", b |-> "data01.img"]
Name(v) ==
  CASE v = "exact"    -> Want
    [] v = "lower"    -> [x |-> "data01.img", f |-> "data01.img",
                          b |-> "data01.img"]
    [] v = "upper"    -> [x |-> "DATA01.IMG", f |-> "data01.img",
                          b |-> "data01.img"]
    [] v = "exactgz"  -> [x |-> "Data01.Img.gz", f |-> "data01.img.gz",
                          b |-> "data01.img"]
    [] v = "lowergz"  -> [x |-> "data01.img.gz", f |-> "data01.img.gz",
                          b |-> "data01.img"]
    [] v = "upperbz2" -> [x |-> "DATA01.IMG.BZ2", f |-> "data01.img.bz2",
                          b |-> "data01.img"]
    [] v = "decoy"    -> [x |-> "Data01.Img.bak", f |-> "data01.img.bak",
                          b |-> "data01.img.bak"]
File(d, v) == Name(v) @@ [m |-> ToString(d) \o v]
RECURSIVE AsSeq(_)
AsSeq(S) == IF S = {} THEN <<>>
            ELSE LET v == CHOOSE v \in S : TRUE IN <<v>> \o AsSeq(S \ {v})
Few == {S \in SUBSET Variants : Cardinality(S) <= MaxIn}

VARIABLES dirs, at, got
vars == <<dirs, at, got>>
Listing == [d \in 1..NDirs |->
              [i \in 1..Len(dirs[d]) |-> File(d, dirs[d][i])]]
Init == /\ dirs \in [1..NDirs -> {AsSeq(S) : S \in Few}]
        /\ at = 1 /\ got = {}
\* one directory is looked at; the search stops at the first hit
Look == /\ got = {} /\ at <= NDirs
        /\ got' = {[d |-> at, x |-> n.x, m |-> n.m] : n \in In(Listing[at], Want)}
        /\ at' = at + 1 /\ UNCHANGED dirs
Next == Look
Spec == Init /\ [][Next]_vars
Over == got # {} \/ at > NDirs

Agrees == Over => got = Resolve(Listing, Everywhere(Listing, Want))
FirstDir == \A g \in got : \A d \in 1..(g.d - 1) : In(Listing[d], Want) = {}
ExactWins == \A g \in got :
  (\E i \in 1..Len(dirs[g.d]) : dirs[g.d][i] = "exact") => g.x = Want.x
NeverDecoy == \A g \in got : g.x # "Data01.Img.bak"
Complete == Over /\ got = {} =>
  \A d \in 1..NDirs : \A i \in 1..Len(dirs[d]) : dirs[d][i] = "decoy"
Emit == at = 1 => PrintT("SCN " \o ToJson([dirs |-> dirs]))
=============================================================================
