------------------------------ MODULE MC_Scale ------------------------------
(* Histories of requests to one array of a product: every way its label can  *)
(* state scaling and special constants, every sequence of N requests.        *)
(* The array has an ordinary and a special element; "held" is what the       *)
(* product has in memory, computed step by step.                             *)
EXTENDS Scaling, Json
CONSTANT N, Stds
Kinds == {"none", "int", "real", "units", "na", "planes", "plane-factor",
          "plane-offset"}
Consts == {"none", "explicit", "implicit", "both"}
Requests == {"item", "get", "getin", "reload", "other"}
VARIABLES std, kind, sp, hist, held, out
vars == <<std, kind, sp, hist, held, out>>

Num(xs) == [k |-> "num", v |-> xs]
None == [k |-> "none", v |-> <<>>]
F == CASE kind \in {"none", "plane-offset"} -> None
       [] kind = "na" -> [k |-> "na", v |-> <<>>]
       [] kind \in {"planes", "plane-factor"} ->
            Num(<<B!Of(16), B!Of(-24)>>)
       [] kind = "real" -> Num(<<B!Of(4)>>)
       [] OTHER -> Num(<<B!Of(24)>>)
O == CASE kind \in {"none", "na", "plane-factor"} -> None
       [] kind \in {"planes", "plane-offset"} ->
            Num(<<B!Of(64), B!Of(-128)>>)
       [] OTHER -> Num(<<B!Of(320)>>)
Key == IF std = "PDS4" THEN "missing_constant" ELSE "MISSING_CONSTANT"
Case == [std |-> std, dtype |-> "int16", crism |-> FALSE, complex |-> FALSE, planes |-> 2,
         factor |-> F, offset |-> O,
         consts |-> IF sp \in {"explicit", "both"}
                    THEN <<[key |-> Key, num |-> TRUE, v |-> Eight(B!Of(7))],
                           [key |-> "valid_minimum", num |-> TRUE,
                            v |-> Eight(B!Of(5))]>>
                    ELSE <<>>,
         data |-> <<Eight(B!Of(5)), Eight(B!Of(7)),
                    Eight(B!Of(32767)), Eight(B!Of(-40))>>]
Raw == [i \in 1..4 |-> Eight(Case.data[i])]
Scaled == [i \in 1..4 |-> IF Special(Case, Case.data[i]) THEN Raw[i]
                          ELSE Result(Case, i)]
Init == /\ std \in Stds /\ kind \in Kinds /\ sp \in Consts
        /\ std = "PDS4" => kind \in {"none", "int", "real"}
        /\ hist = <<>> /\ held = [v |-> Raw, n |-> 0] /\ out = <<>>
\* scaling is a function of the stored elements, so it happens at most once
Fetch(inplace) ==
  /\ out' = IF held.n = 1 THEN held.v ELSE Scaled
  /\ held' = IF inplace /\ held.n = 0 /\ std = "PDS3"
             THEN [v |-> Scaled, n |-> 1] ELSE held
Do(r) ==
  CASE r = "get" -> Fetch(FALSE) [] r = "getin" -> Fetch(TRUE)
    [] r = "reload" -> held' = [v |-> Raw, n |-> 0] /\ out' = <<>>
    [] OTHER -> held' = held /\ out' = <<>>
Next == /\ Len(hist) < N
        /\ \E r \in Requests : Do(r) /\ hist' = Append(hist, r)
        /\ UNCHANGED <<std, kind, sp>>
Spec == Init /\ [][Next]_vars

Obs(v) == [data |-> v, mask |-> MaskOf(Case)]
OutOK == out = <<>> \/ GoodScaled(Case, Obs(out))
HeldOK == /\ held.n = 0 => held.v = Raw
          /\ held.n = 1 => GoodInPlace(Case, Obs(held.v))
Spared == (\A i \in 1..Len(hist) : hist[i] # "getin") => held.v = Raw
SpecialsNeverScaled ==
  \A i \in 1..4 : Special(Case, Case.data[i]) => held.v[i] = Raw[i]
ImplicitKnown == (sp \in {"implicit", "both"} /\ std = "PDS3")
                 => Special(Case, Eight(B!Of(32767)))
ValidIsNotSpecial == ~Special(Case, Eight(B!Of(5)))
Emit == Len(hist) = N =>
  PrintT("SCN " \o ToJson([std |-> std, kind |-> kind, sp |-> sp,
                           hist |-> hist]))
=============================================================================
