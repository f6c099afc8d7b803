------------------------------ MODULE MC_Texts ------------------------------
(* A writer lays down lines before, in and after a header, each with an      *)
(* ending of its choice. What the reader's rules cut out must be what the    *)
(* writer put into the header, however the place is stated.                  *)
EXTENDS Texts, TLC, Json
CONSTANTS Pieces, MaxBefore, MaxHeader, MaxAfter
VARIABLES before, head, after, ptr, len
vars == <<before, head, after, ptr, len>>
\* pieces of text: ways to write a line. The names keep the cfg readable.
LinesFor == [crlf |-> <<65, 13, 10>>, lf |-> <<66, 67, 10>>, cr |-> <<68, 13>>,
             empty |-> <<13, 10>>, wide |-> <<195, 169, 10>>, bare |-> <<10>>]
Init == /\ before = <<>> /\ head = <<>> /\ after = <<>>
        /\ ptr \in {"file", "record", "byte"} /\ len \in {"bytes", "lines"}
        /\ ptr = "byte" => len = "bytes"
Next ==
  \/ /\ Len(before) < MaxBefore /\ head = <<>> /\ after = <<>> /\ ptr # "file"
     /\ \E p \in Pieces : before' = Append(before, p)
     /\ UNCHANGED <<head, after, ptr, len>>
  \/ /\ Len(head) < MaxHeader /\ after = <<>>
     /\ \E p \in Pieces : head' = Append(head, p)
     /\ UNCHANGED <<before, after, ptr, len>>
  \/ /\ Len(after) < MaxAfter /\ head # <<>>
     /\ \E p \in Pieces : after' = Append(after, p)
     /\ UNCHANGED <<before, head, ptr, len>>
Spec == Init /\ [][Next]_vars
Bytes(ps) == Flat([i \in 1..Len(ps) |-> LinesFor[ps[i]]])
\* a lone \r directly before a \n would be one ending, not two
Sane(ps) == \A i \in 1..(Len(ps) - 1) : ~(ps[i] = "cr" /\ ps[i + 1] = "bare")
All == before \o head \o after
LabOf == [ptr |-> ptr, stream |-> TRUE, recbytes |-> 0, blockrec |-> 0,
          at |-> IF ptr = "byte" THEN Len(Bytes(before)) + 1 ELSE Len(before) + 1,
          bytes |-> IF len = "bytes" THEN Len(Bytes(head)) ELSE 0,
          records |-> IF len = "bytes" THEN 0 ELSE Len(head)]
Exact == (head # <<>> /\ Sane(All)) =>
           HeaderBytes(LabOf, Bytes(All)) = Bytes(head)
RECURSIVE Naive(_)
Naive(t) == IF t = <<>> THEN <<>>
            ELSE IF Head(t) = 13 /\ Len(t) > 1 /\ t[2] = 10 THEN <<10>> \o Naive(Tail(Tail(t)))
            ELSE IF Head(t) = 13 THEN <<10>> \o Naive(Tail(t))
            ELSE <<Head(t)>> \o Naive(Tail(t))
CanonOK == LET b == Bytes(All)
           IN /\ Canon(b) = Naive(b) /\ Canon(Canon(b)) = Canon(b)
              /\ Sane(All) => Len(LineEnds(Canon(b))) = Len(All)
ASSUME \A c \in {0, 9, 65, 127, 128, 233, 2047, 2048, 8364, 65535, 65536, 128512} :
         FromUtf8(ToUtf8(c) \o <<65>>, 1, <<>>) = <<c, 65>>
Emit == (head # <<>> /\ Sane(All)) =>
          PrintT("SCN " \o ToJson([before |-> before, head |-> head,
                                   after |-> after, ptr |-> ptr, len |-> len]))
=============================================================================
