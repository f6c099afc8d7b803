------------------------------ MODULE Product -------------------------------
(* The life of an opened product: an ordered list of object names, each      *)
(* unloaded or holding a value, and the operations a caller may perform on   *)
(* it. The value an object takes when it is (re)loaded is a function of its  *)
(* own definition and file only; operations touch only the object they name. *)
EXTENDS PdrBytes

(* An object o: name, kind ("image" | "table" | "text" | "unsup"), w (bytes  *)
(* per element), shape, bytes (stored content), fault ("none" | "missing" |  *)
(* anything else = unreadable), def (flattened definition: <<key, text>>).   *)

StartsWith(s, p) == Len(s) >= Len(p) /\ SubSeq(s, 1, Len(p)) = p
EndsWith(s, p) == Len(s) >= Len(p) /\ SubSeq(s, Len(s) - Len(p) + 1, Len(s)) = p
Digits == {"0", "1", "2", "3", "4", "5", "6", "7", "8", "9"}
RECURSIVE DropDigits(_)
DropDigits(s) == IF s # "" /\ SubSeq(s, Len(s), Len(s)) \in Digits
                 THEN DropDigits(SubSeq(s, 1, Len(s) - 1)) ELSE s
\* X_DESCRIPTION and X_DESCRIPTION_12
IsDescription(s) ==
  \/ EndsWith(s, "DESCRIPTION")
  \/ EndsWith(DropDigits(s), "DESCRIPTION_")
\* names "load everything" passes over
Ignored(s) == \/ StartsWith(s, "DATA_SET_MAP_PROJECT")
              \/ EndsWith(s, "_DESC") \/ IsDescription(s)

Outcome(o, debug) ==
  IF o.kind = "unsup" THEN "meta"
  ELSE IF o.fault = "none" THEN "data"
  ELSE IF o.fault = "missing" /\ debug THEN "raise"
  ELSE "meta"

Unloaded == [val |-> "no", tok |-> 0]
\* state: function object index -> [val, tok]
Fresh(objs) == [i \in 1..Len(objs) |-> Unloaded]
Held(s, i) == s[i].val # "no"
LoadOne(s, objs, debug, i, tok) ==
  LET r == Outcome(objs[i], debug)
  IN IF r = "raise" THEN s ELSE [s EXCEPT ![i] = [val |-> r, tok |-> tok]]
Pending(s, objs) == {i \in 1..Len(objs) : ~Held(s, i) /\ ~Ignored(objs[i].name)}
\* a set of loads in label order stops at the first one that raises
Raisers(objs, debug, S) == {i \in S : Outcome(objs[i], debug) = "raise"}
Reached(objs, debug, S) ==
  LET R == Raisers(objs, debug, S)
  IN IF R = {} THEN S ELSE {i \in S : \A r \in R : i < r}
UnloadedNames(s, objs) ==
  LET RECURSIVE U(_)
      U(i) == IF i > Len(objs) THEN <<>>
              ELSE (IF Held(s, i) THEN <<>> ELSE <<objs[i].name>>) \o U(i + 1)
  IN U(1)
Names(objs) == [i \in 1..Len(objs) |-> objs[i].name]
Pos(objs, n) == CHOOSE i \in 1..Len(objs) : objs[i].name = n
Known(objs, n) == \E i \in 1..Len(objs) : objs[i].name = n
=============================================================================
