----------------------------- MODULE MC_Pds4Row -----------------------------
(* A writer of delimited records: values over an alphabet that includes the  *)
(* delimiter, written one at a time, quoted if they must be and if the       *)
(* writer likes. Splitting a record gives back the values.                   *)
EXTENDS Pds4, Json
CONSTANTS MaxVals, MaxLen
Sep == 44
Alphabet == {97, Sep, 32}          \* a letter, the delimiter, a blank
RECURSIVE Strings4(_)
Strings4(n) == IF n = 0 THEN {<<>>}
               ELSE LET s == Strings4(n - 1)
                    IN s \cup {Append(x, c) : x \in s, c \in Alphabet}
Quote(v) == <<34>> \o v \o <<34>>
Must(v) == Sep \in Range(v)

VARIABLES done, text, quoted
vars == <<done, text, quoted>>
Init == done = <<>> /\ text = <<>> /\ quoted = <<>>
Write(v, q) ==
  /\ Len(done) < MaxVals
  /\ done' = Append(done, v) /\ quoted' = Append(quoted, q)
  /\ text' = text \o (IF done = <<>> THEN <<>> ELSE <<Sep>>) \o (IF q THEN Quote(v) ELSE v)
Next == \E v \in Strings4(MaxLen), q \in BOOLEAN : (Must(v) => q) /\ Write(v, q)
Spec == Init /\ [][Next]_vars
RoundTrip == done # <<>> => SplitRow(text, Sep) = done
Emit == Len(done) = MaxVals => PrintT("SCN " \o ToJson([values |-> done, quoted |-> quoted]))
=============================================================================
