------------------------------ MODULE MC_Value ------------------------------
(* Every combination of literal kinds and collection contexts up to the      *)
(* bound, and laws of the denotation.                                        *)
EXTENDS Label, Json
CONSTANTS Atoms, MaxSeq, Deep
VARIABLE v
\* abstract literals: the harness picks a concrete numeral / text for a kind
Atom(k) == [t |-> k]
As == {Atom(k) : k \in Atoms}
Qs == {[t |-> "qty", v |-> [t |-> k]] : k \in Atoms \cap {"int", "real", "na"}}
Base == As \cup Qs
SeqsOf(S, n) == UNION {[1..m -> S] : m \in 1..n}
Flat1 == {[t |-> c, e |-> s] : c \in {"seq", "set"}, s \in SeqsOf(Base, MaxSeq)}
Small == {[t |-> c, e |-> s] : c \in {"seq", "set"}, s \in SeqsOf(Base, Deep)}
Nested == {[t |-> "seq", e |-> s] : s \in SeqsOf(
              {x \in Small : x.t = "seq"} \cup As, 2)}
Init == v \in Base \cup Flat1 \cup Nested
Next == UNCHANGED v
Spec == Init /\ [][Next]_v

\* laws of the numerals
Nums == {"0", "7", "12", "100", "305"}
Laws ==
  /\ \A n \in Nums : /\ IntCanon(n) = n /\ IntCanon("+" \o n) = n
                     /\ IntCanon("00" \o n) = n
                     /\ IntCanon("-" \o n) = (IF n = "0" THEN "0" ELSE "-" \o n)
  /\ \A n, m \in Nums :
       /\ RealCanon(n \o "." \o m \o "0") = RealCanon(n \o "." \o m)
       /\ RealCanon(n \o "." \o m \o "E+2") = RealCanon(n \o m \o "e" \o
                       ToString(2 - Len(m)))
       /\ (RealCanon(n) = RealCanon(m)) => (n = m)
Denotable ==
  \* a value denotes itself and a different one does not
  /\ Denotes([t |-> "seq", e |-> <<[t |-> "int", x |-> "1"], [t |-> "text", x |-> "A"]>>],
             [t |-> "tuple", v |-> <<[t |-> "int", v |-> "1"], [t |-> "str", v |-> "A"]>>])
  /\ ~Denotes([t |-> "int", x |-> "1"], [t |-> "float", v |-> "1.0"])
  /\ ~Denotes([t |-> "text", x |-> "1"], [t |-> "int", v |-> "1"])
ASSUME Laws
ASSUME Denotable
Emit == PrintT("SCN " \o ToJson([val |-> v]))
=============================================================================
