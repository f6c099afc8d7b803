----------------------------- MODULE MC_Layout ------------------------------
(* Bounded exploration of pointer forms and object names.                    *)
EXTENDS Layout, Json
CONSTANTS Names, MaxNames, RBs, MaxPos
VARIABLES names, o, fileRB, prodRB
vars == <<names, o, fileRB, prodRB>>
Init == /\ names = <<>>
        /\ fileRB \in {0} \cup RBs /\ prodRB \in RBs
        /\ o \in {[rb |-> rb, loc |-> [k |-> k, v |-> v]] :
                  rb \in {0} \cup RBs, k \in {"none", "bytes", "rec"},
                  v \in 1..MaxPos}
Next == /\ Len(names) < MaxNames
        /\ \E n \in Names : names' = Append(names, n)
        /\ UNCHANGED <<o, fileRB, prodRB>>
Spec == Init /\ [][Next]_vars

S == Start(o, fileRB, prodRB)
FromOne == o.loc.k # "none" /\ o.loc.v = 1 => S = 0
NamedOnly == o.loc.k = "none" => S = 0
Steps == o.loc.k = "rec" =>
  LET p == [o EXCEPT !.loc.v = o.loc.v + 1]
  IN Start(p, fileRB, prodRB) - S = RecordSize(o, fileRB, prodRB)
Nearest == RecordSize(o, fileRB, prodRB) \in {o.rb, fileRB, prodRB}
           /\ (o.rb > 0 => RecordSize(o, fileRB, prodRB) = o.rb)
Distinct == \A i, j \in 1..Len(names) :
  Numbered(names)[i] = Numbered(names)[j] => i = j
OnceSame == \A i \in 1..Len(names) :
  Times(names, i) = 1 => Numbered(names)[i] = names[i]
EmitNames == (o.loc.v = 1 /\ o.loc.k = "none" /\ o.rb = 0 /\ fileRB = 0
              /\ prodRB = CHOOSE r \in RBs : TRUE) /\ Len(names) > 0
             => PrintT("SCN " \o ToJson([names |-> names]))
EmitLoc == names = <<>> =>
  PrintT("SCN " \o ToJson([o |-> o, fileRB |-> fileRB, prodRB |-> prodRB]))
=============================================================================
