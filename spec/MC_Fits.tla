------------------------------ MODULE MC_Fits --------------------------------
(* Every short list of HDU names with every short history of use. The        *)
(* reader here is written as it works: a list of names, objects held under   *)
(* them with the HDU part they came from; the invariants say that this is    *)
(* what Fits.tla says about names and histories.                             *)
EXTENDS Fits, Json
CONSTANTS MaxHdus, MaxOps
Alphabet == {"", "A", "A_0", "A_HEADER", "HEADER"}

VARIABLES hdus, ops, index, held, st
vars == <<hdus, ops, index, held, st>>
Hdu(n) == [name |-> n, ncards |-> 3, nbytes |-> 8]
Mine == OwnPrimary(hdus)

Init == /\ \E n \in 0..MaxHdus : \E f \in [1..n -> Alphabet] :
             hdus = <<Hdu("")>> \o [i \in 1..n |-> Hdu(f[i])]
        /\ ops = <<>>
        /\ index = HduNames(hdus)
        /\ held = [n \in {} |-> <<>>]
        /\ st = Opened(OwnPrimary(hdus))

Keep(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Position(n) == CHOOSE i \in 1..Len(hdus) : HduNames(hdus)[i] = n
IsHdu(n) == n \in Range(HduNames(hdus))
\* the reader: data bring their header along
Ingest(n) ==
  IF IsHdu(n)
  THEN LET i == Position(n) hn == n \o "_HEADER"
           h1 == Keep(held, n, <<i, "data", "fresh">>)
       IN IF IsHdu(hn) THEN /\ held' = h1 /\ UNCHANGED index
          ELSE /\ held' = Keep(h1, hn, <<i, "header", "fresh">>)
               /\ index' = IF hn \in Range(index) THEN index ELSE Append(index, hn)
  ELSE LET base == CHOOSE b \in Range(HduNames(hdus)) : b \o "_HEADER" = n
       IN held' = Keep(held, n, <<Position(base), "header", "fresh">>) /\ UNCHANGED index
Do(o, n) ==
  /\ Len(ops) < MaxOps
  /\ ops' = Append(ops, [op |-> o, name |-> n])
  /\ st' = StepOf(Mine, st, [op |-> o, name |-> n])
  /\ UNCHANGED hdus
Gets(n) == Do("get", n) /\ IF n \in DOMAIN held THEN UNCHANGED <<held, index>> ELSE Ingest(n)
Loads(n) == Do("load", n) /\ Ingest(n)
Drops(n) == /\ n \in DOMAIN held /\ Do("drop", n)
            /\ held' = [x \in DOMAIN held \ {n} |-> held[x]] /\ UNCHANGED index
Spoils(n) == /\ n \in DOMAIN held /\ Do("spoil", n)
             /\ held' = [held EXCEPT ![n][3] = "spoiled"] /\ UNCHANGED index
Next == \E n \in Range(index) : Gets(n) \/ Loads(n) \/ Drops(n) \/ Spoils(n)
Spec == Init /\ [][Next]_vars

Distinct == \A i, j \in 1..Len(index) : i # j => index[i] # index[j]
Reachable == \A i \in 1..Len(hdus) : \E t \in Things(Mine) : t.hdu = i /\ t.part = "data"
             /\ t.name \in Range(index)
KeepsOwn == \A i \in 1..Len(hdus) : Cardinality(Same(hdus, i)) = 1
              => HduNames(hdus)[i] = OwnName(hdus, i)
InOrder == \A i, j \in 1..Len(hdus) : i < j => HeaderAt(hdus, i) + HeaderSize(hdus[i])
              + DataSize(hdus[i]) <= HeaderAt(hdus, j)
Agrees == /\ Range(index) = st.listed
          /\ \A n \in DOMAIN st.held :
               IF n \in DOMAIN held
               THEN /\ st.held[n] = held[n][3]
                    /\ Thing(Mine, n).hdu = held[n][1] /\ Thing(Mine, n).part = held[n][2]
               ELSE st.held[n] = "no"
Emit == Len(ops) = MaxOps =>
          PrintT("SCN " \o ToJson([names |-> [i \in 1..(Len(hdus) - 1) |-> hdus[i + 1].name], ops |-> ops]))
=============================================================================
