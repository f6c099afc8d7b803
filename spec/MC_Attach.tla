----------------------------- MODULE MC_Attach ------------------------------
(* A label separated from its data by reading the file in pieces: for every  *)
(* file over a small alphabet, and wherever the pieces fall, looking for the *)
(* end mark in each piece together with the last bytes of what came before   *)
(* finds the first end mark of the file.                                     *)
EXTENDS Layout, Json
CONSTANTS MaxLen, Head0, Chunk, Overlap
Pat == <<1, 2, 1>>         \* newline, END, newline
VARIABLES file, pos, text, done
vars == <<file, pos, text, done>>
Occurs(s, i) == i + Len(Pat) - 1 <= Len(s)
                /\ SubSeq(s, i, i + Len(Pat) - 1) = Pat
First(s) == IF \E i \in 1..Len(s) : Occurs(s, i)
            THEN CHOOSE i \in 1..Len(s) : Occurs(s, i)
                   /\ \A j \in 1..(i - 1) : ~Occurs(s, j)
            ELSE 0
Files == UNION {[1..n -> {0, 1, 2}] : n \in 0..MaxLen}
Take(s, n) == SubSeq(s, 1, IF n < Len(s) THEN n ELSE Len(s))
Last(s, n) == IF Len(s) <= n THEN s ELSE SubSeq(s, Len(s) - n + 1, Len(s))
Drop(s, n) == IF Len(s) <= n THEN <<>> ELSE SubSeq(s, 1, Len(s) - n)
Init == file \in Files /\ text = Take(file, Head0) /\ pos = Len(text)
        /\ done = FALSE
Read == /\ ~done
        /\ LET chunk == SubSeq(file, pos + 1, IF pos + Chunk < Len(file)
                                              THEN pos + Chunk ELSE Len(file))
               seen == Last(text, Overlap) \o chunk
               at == First(seen)
           IN IF chunk = <<>> THEN done' = TRUE /\ UNCHANGED <<text, pos>>
              ELSE IF at > 0
                   THEN /\ text' = Drop(text, Overlap)
                                   \o Take(seen, at + Len(Pat) - 1)
                        /\ done' = TRUE /\ pos' = pos + Len(chunk)
                   ELSE /\ text' = text \o chunk /\ pos' = pos + Len(chunk)
                        /\ UNCHANGED done
        /\ UNCHANGED file
Next == Read
Spec == Init /\ [][Next]_vars
Separated == done => text = (IF First(file) = 0 THEN file
                             ELSE Take(file, First(file) + Len(Pat) - 1))
Emit == pos = Len(Take(file, Head0)) /\ ~done /\ First(file) > 0
        /\ (\A i \in 1..Len(file) : i < First(file)
              \/ i >= First(file) + 3 => file[i] = 0) =>
  PrintT("SCN " \o ToJson([at |-> First(file), len |-> Len(file),
                           head |-> Head0, chunk |-> Chunk]))
Consistent == text = Take(file, Len(text))
=============================================================================
